----------------------------- MODULE MCPrinting -----------------------------
(* The commands in steps: open, ask, then print entry by entry; every step  *)
(* but printing can fail.  And the command lines to try.                    *)
EXTENDS Printing, Json

CONSTANTS Names, MaxEntries, Gen,
          Late    \* nothing is printed before all has been read

SomeNames == {<<65>>, <<65, 66>>}
MoreNames == {<<65>>, <<65, 66>>, <<32, 65>>}

VARIABLES c, s, phase, k, out, said, rc
vars == <<c, s, phase, k, out, said, rc>>

Entries == {<<a, b>> : a \in Names, b \in Names \cup {<<>>}}
Lists == UNION {[1..n -> Entries] : n \in 0..MaxEntries}

Init == /\ c \in [cmd : {"ls", "dump"}, short : BOOLEAN, dir : BOOLEAN]
        /\ s \in [opened : BOOLEAN, subdirs : BOOLEAN, ok : BOOLEAN, names : Lists, data : {<<>>, <<7>>}]
        /\ phase = "open" /\ k = 0 /\ out = <<>> /\ said = FALSE /\ rc = -1

Fail == phase' = "end" /\ said' = TRUE /\ rc' = 1 /\ UNCHANGED <<c, s, k, out>>
Go(p) == phase' = p /\ UNCHANGED <<c, s, k, out, said, rc>>
Open == phase = "open" /\ IF s.opened THEN Go("ask") ELSE Fail
Ask == phase = "ask" /\ IF Late /\ (~ s.ok \/ (c.cmd = "ls" /\ c.dir /\ ~ s.subdirs)) THEN Fail ELSE Go("print")
Show == /\ phase = "print"
         /\ IF c.cmd = "dump"
            THEN IF ~ Works(c, s) THEN Fail ELSE out' = s.data /\ phase' = "end" /\ rc' = 0 /\ UNCHANGED <<c, s, k, said>>
            ELSE IF k < Len(s.names)
            THEN k' = k + 1 /\ out' = out \o Shown(c, s.names[k + 1]) \o <<NL>> /\ UNCHANGED <<c, s, phase, said, rc>>
            ELSE IF ~ Works(c, s) THEN Fail
            ELSE phase' = "end" /\ rc' = 0 /\ UNCHANGED <<c, s, k, out, said>>
Next == Open \/ Ask \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Conforms == phase = "end" => PrintBad(c, s, [how |-> "ok", rc |-> rc, out |-> out, said |-> said]) = {}
Ends == <>(phase = "end")

\* Two different lists of plain names never look the same.
Telling == phase = "open" => \A t \in Lists : (Listing([c EXCEPT !.short = TRUE], t, 1) = Listing([c EXCEPT !.short = TRUE], s.names, 1))
                                   => [i \in 1..Len(t) |-> t[i][1]] = [i \in 1..Len(s.names) |-> s.names[i][1]]

Lines == [cmd : {"ls", "list", "cat", "catalog", "dump"}, short : {"", "-s", "--short-names"}, via : {"file", "stdin"},
          debug : {"", "-v", "-vv", "--debug"}, order : {"", "auto", "do", "po"}, system : {"", "auto", "dos3", "nakedos", "prodos"},
          what : {"none", "there", "missing"}]
ASSUME Gen => \A x \in {y \in Lines : y.cmd = "dump" => (y.short = "" /\ y.what # "none" /\ y.system \in {"", "auto", "dos3"})} : PrintT("SHOW " \o ToJson(x))
=============================================================================
