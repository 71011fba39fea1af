---------------------------- MODULE MCApplesoft ----------------------------
(* A reader following the links of every small memory, a byte at a time,    *)
(* against the definition; that it always ends; and that what was stored is *)
(* what is read.                                                            *)
EXTENDS Applesoft, Json

CONSTANTS MaxLen, Alphabet, Locations, Gen

VARIABLES mem, loc, status, pc, at, seen, lines, cur
vars == <<mem, loc, status, pc, at, seen, lines, cur>>

\* A memory is built byte by byte, then read.
Init == mem = <<>> /\ loc \in Locations /\ status = "build" /\ pc = 0 /\ at = 0 /\ seen = {} /\ lines = <<>> /\ cur = <<>>
Build(c) == status = "build" /\ Len(mem) < MaxLen /\ mem' = Append(mem, c) /\ UNCHANGED <<loc, status, pc, at, seen, lines, cur>>
Start == status = "build" /\ ~ HasHeader(mem) /\ status' = "link" /\ at' = loc /\ UNCHANGED <<mem, loc, pc, seen, lines, cur>>

Has(n) == pc + n <= Len(mem)
Fail == status' = "failed" /\ UNCHANGED <<mem, loc, pc, at, seen, lines, cur>>
\* At the link of the line at address at.
Link ==
    /\ status = "link"
    /\ LET o == at - loc IN
       IF at \in seen \/ o < 0 \/ o + 2 > Len(mem) THEN Fail
       ELSE /\ seen' = seen \cup {at} /\ pc' = o + 2 /\ at' = Word(mem, o)
            /\ status' = IF Word(mem, o) = 0 THEN "done" ELSE "number"
            /\ cur' = <<>> /\ UNCHANGED <<mem, loc, lines>>
Number ==
    /\ status = "number"
    /\ IF ~ Has(2) THEN Fail
       ELSE /\ lines' = Append(lines, [num |-> Word(mem, pc), text |-> <<>>]) /\ pc' = pc + 2 /\ status' = "text"
            /\ UNCHANGED <<mem, loc, at, seen, cur>>
Text ==
    /\ status = "text"
    /\ IF ~ Has(1) THEN Fail
       ELSE LET c == mem[pc + 1] IN
            IF c > 127 /\ ~ IsToken(c) THEN Fail
            ELSE /\ pc' = pc + 1
                 /\ status' = IF c = 0 THEN "link" ELSE "text"
                 /\ lines' = IF c = 0 THEN lines ELSE [lines EXCEPT ![Len(lines)].text = Append(@, c)]
                 /\ UNCHANGED <<mem, loc, at, seen, cur>>
Read == Start \/ Link \/ Number \/ Text
Next == (\E c \in Alphabet : Build(c)) \/ Read
GenNext == \E c \in Alphabet : Build(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Link) /\ WF_vars(Number) /\ WF_vars(Text)

Ends == (status = "link") ~> (status \in {"done", "failed"})
Agrees == /\ status = "done" => Decoded(mem, loc) = [ok |-> TRUE, lines |-> lines]
          /\ status = "failed" => ~ Decoded(mem, loc).ok
\* Programs of two short lines, at each location, with and without header.
Texts == {<<>>, <<65>>, <<186, 34>>}
RoundTrip ==
    status = "build" /\ mem = <<>> =>
      \A a, b \in Texts : \A n \in {0, 10, 65535} : \A k \in 0..2 :
        LET p == SubSeq(<<[num |-> n, text |-> a], [num |-> 256, text |-> b]>>, 1, k)
            m == Stored(p, loc)
            want == [ok |-> TRUE, lines |-> p]
        IN /\ ~ HasHeader(m) => Decoded(m, loc) = want
           /\ Decoded(<<Lo(Len(m)), Hi(Len(m))>> \o m, loc) = want
           /\ Decoded(<<Lo(Len(m)), Hi(Len(m))>> \o m \o <<7>>, loc) = want
           /\ ~ HasHeader(m \o <<7>>) => Decoded(m \o <<7>>, loc) = want
           \* cut short anywhere, it is refused
           /\ \A c \in 0..Len(m) - 1 : ~ HasHeader(SubSeq(m, 1, c)) => ~ Decoded(SubSeq(m, 1, c), loc).ok
Printed == (Gen /\ status = "build") => PrintT("MEM " \o ToJson(<<loc, mem>>))
=============================================================================
