----------------------------- MODULE MCDamaged ------------------------------
(* Why reading a damaged volume ends: a reader of directories goes through   *)
(* every graph of next, subdirectory and parent pointers over a few blocks.  *)
(* It never reads a block twice, so it ends after a bounded number of steps, *)
(* with an error or with exactly the volume ProDOSTree describes.  TLC also  *)
(* prints the graphs, to be replayed on the real code.                       *)
EXTENDS ProDOSTree, Json

CONSTANTS Others        \* blocks besides the volume's key block 2

Out == 9                \* a pointer that leaves the volume (of 9 blocks)
Blks == {2} \cup Others
Ptr == {0, Out} \cup Blks

VARIABLES next, sub, par,          \* the graph: sub[b] is 0 if b has no subdirectory entry
          queue, dirs, cur, cdir, seen, status, climb, at
graph == <<next, sub, par>>
vars == <<next, sub, par, queue, dirs, cur, cdir, seen, status, climb, at>>

V == [n |-> Out, at |-> Blks, next |-> next,
      keysubs |-> [b \in Blks |-> IF sub[b] = 0 THEN <<>> ELSE <<sub[b]>>],
      blksubs |-> [b \in Blks |-> IF sub[b] = 0 THEN <<>> ELSE <<sub[b]>>],
      name |-> [b \in Blks |-> <<b>>], parent |-> par]

Init == /\ next \in [Blks -> Ptr] /\ sub \in [Blks -> Ptr]
        /\ par \in {f \in [Blks -> Ptr] : f[2] = 0}
        /\ queue = <<>> /\ dirs = <<>> /\ cur = 2 /\ cdir = 2 /\ seen = {} /\ status = "blocks" /\ climb = 0 /\ at = 0

HasDir(k) == \E j \in 1..Len(dirs) : dirs[j] = k
Subs(b) == IF b \in Blks /\ sub[b] # 0 THEN <<sub[b]>> ELSE <<>>
Nxt(b) == IF b \in Blks THEN next[b] ELSE 0
Par(b) == IF b \in Blks THEN par[b] ELSE 0

\* Reading the blocks of directory cdir, one by one.
ReadBlock == /\ status = "blocks"
             /\ IF cur = 0 /\ cdir \in seen
                THEN /\ dirs' = IF cdir = 2 THEN dirs ELSE Append(dirs, cdir)
                     /\ status' = "queue" /\ UNCHANGED <<cur, seen, queue>>
                ELSE IF cur >= Out \/ cur \in seen THEN status' = "error" /\ UNCHANGED <<cur, seen, queue, dirs>>
                ELSE /\ seen' = seen \cup {cur} /\ queue' = queue \o Subs(cur)
                     /\ cur' = Nxt(cur) /\ UNCHANGED <<dirs, status>>
             /\ UNCHANGED <<cdir, climb, at>>
\* Taking the next subdirectory entry.
TakeEntry == /\ status = "queue"
             /\ IF queue = <<>> THEN status' = "parents" /\ climb' = 1 /\ at' = 0 /\ UNCHANGED <<queue, cur, cdir>>
                ELSE /\ queue' = Tail(queue) /\ UNCHANGED <<climb, at>>
                     /\ IF HasDir(Head(queue)) THEN UNCHANGED <<cur, cdir, status>>
                        ELSE cur' = Head(queue) /\ cdir' = Head(queue) /\ status' = "blocks"
             /\ UNCHANGED <<dirs, seen>>
\* Climbing from each directory to the volume by parent pointers, not further
\* than there are directories.  at counts the steps.
R == Read(V)
ClimbAll == /\ status = "parents"
            /\ IF climb > Len(dirs) THEN status' = "done" /\ UNCHANGED <<climb, at, cur>>
               ELSE LET here == IF at = 0 THEN dirs[climb] ELSE cur
                        o == Owners(R, Par(here))
                    IN IF o = {} \/ at > Len(dirs) THEN status' = "error" /\ UNCHANGED <<climb, at, cur>>
                       ELSE LET d == CHOOSE x \in o : TRUE
                            IN /\ UNCHANGED status
                               /\ IF d = 0 THEN climb' = climb + 1 /\ at' = 0 /\ cur' = 0
                                  ELSE climb' = climb /\ at' = at + 1 /\ cur' = R.dirs[d].key
            /\ UNCHANGED <<queue, dirs, cdir, seen>>

Next == (ReadBlock \/ TakeEntry \/ ClimbAll) /\ UNCHANGED graph
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == status \in {"done", "error"}
Ends == <>Ended
\* Ended when exactly the specification's reading is valid, with its directories.
RightEnd == Ended => /\ (status = "done") = ValidTree(R, Parents(V, R))
                     /\ status = "done" => dirs = [j \in 1..Len(R.dirs) |-> R.dirs[j].key]
\* Work is bounded: blocks are read once, so are directories.
Bounded == Len(dirs) <= Cardinality(Blks) + 2 /\ Len(queue) <= Cardinality(Blks)

Order(f) == [i \in 1..(1 + Cardinality(Others)) |-> f[i + 1]]
Printed == PrintT("VOL " \o ToJson(<<Order(next), Order(sub), Order(par)>>))
Once == cur = 99
=============================================================================
