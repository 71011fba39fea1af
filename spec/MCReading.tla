----------------------------- MODULE MCReading ------------------------------
(* A reader that remembers answers, checked against the promises of Reading *)
(* for every short history: it may, provided that it forgets them when the  *)
(* image changes and hands out copies.  The histories are printed as cases. *)
EXTENDS Reading, Json

CONSTANTS Files, Contents, Steps, Gen,
          Forgets, Copies          \* whether the reader does so

VARIABLES disk, cache, K, n, bad
vars == <<disk, cache, K, n, bad>>

None == 0
Unknown == -1
Img == disk
Answer(f) == IF cache[f] # Unknown THEN cache[f] ELSE disk[f]

Init == /\ disk \in [Files -> Contents \cup {None}]
        /\ cache = [f \in Files |-> Unknown]
        /\ K = Start(disk)
        /\ n = 0 /\ bad = {}

Ask(f) == /\ cache' = [cache EXCEPT ![f] = Answer(f)]
          /\ bad' = AskBad(K, f, Answer(f), disk, FALSE)
          /\ K' = AskNext(K, f, Answer(f))
          /\ UNCHANGED disk
Fresh(f) == /\ bad' = AskBad(K, f, disk[f], disk, TRUE)
            /\ K' = AskNext(K, f, disk[f])
            /\ UNCHANGED <<disk, cache>>
\* Without permission an existing file is not replaced.
Put(f, c, force) ==
    LET err == disk[f] # None /\ ~ force
        d == IF err THEN disk ELSE [disk EXCEPT ![f] = c]
    IN /\ disk' = d
       /\ cache' = IF ~ err /\ Forgets THEN [cache EXCEPT ![f] = Unknown] ELSE cache
       /\ bad' = WriteBad(K, TRUE, err, d)
       /\ K' = WriteNext(K, d)
Del(f) ==
    LET d == [disk EXCEPT ![f] = None]
    IN /\ disk' = d
       /\ cache' = IF Forgets THEN [cache EXCEPT ![f] = Unknown] ELSE cache
       /\ bad' = WriteBad(K, TRUE, FALSE, d)
       /\ K' = WriteNext(K, d)
Scribble(f) == /\ cache' = IF Copies \/ cache[f] = Unknown THEN cache ELSE [cache EXCEPT ![f] = 99]
               /\ bad' = ScribbleBad(K, disk)
               /\ UNCHANGED <<disk, K>>

Does(k) ==
    CASE k = "ask" -> \E f \in Files : Ask(f)
      [] k = "fresh" -> \E f \in Files : Fresh(f)
      [] k = "put" -> \E f \in Files : \E c \in Contents : Put(f, c, TRUE)
      [] k = "refused" -> \E f \in Files : \E c \in Contents : Put(f, c, FALSE)
      [] k = "del" -> \E f \in Files : Del(f)
      [] k = "scribble" -> \E f \in Files : Scribble(f)
Kinds == {"ask", "fresh", "put", "refused", "del", "scribble"}
Next == n < Steps /\ \E k \in Kinds : Does(k) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Conforms == bad = {}

\* The cases: every sequence of kinds of steps on a real image.
RealKinds == <<"list", "get", "missing", "put", "refused", "del", "delmissing", "scribble", "fresh">>
RECURSIVE Seqs(_)
Seqs(c) == IF c = 0 THEN {<<>>} ELSE {Append(s, RealKinds[i]) : s \in Seqs(c - 1), i \in 1..Len(RealKinds)}
ASSUME Gen > 0 => \A s \in Seqs(Gen) : PrintT("SESSION " \o ToJson(s))
=============================================================================
