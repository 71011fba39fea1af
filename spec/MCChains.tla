------------------------------ MODULE MCChains ------------------------------
EXTENDS Chains, TLC, Json

CONSTANTS N             \* places 1..N; pointer 0 ends, N+1 leaves the disk

Places == 1..N
Ptr == 0..(N + 1)

VARIABLES start, next, cur, seen, out, status
vars == <<start, next, cur, seen, out, status>>

Init == /\ start \in Ptr /\ next \in [Places -> Ptr]
        /\ cur = start /\ seen = {} /\ out = <<>> /\ status = "walking"

Step == /\ status = "walking"
        /\ IF cur = 0 THEN status' = "ok" /\ UNCHANGED <<cur, seen, out>>
           ELSE IF cur \notin Places \/ cur \in seen
           THEN status' = "bad" /\ UNCHANGED <<cur, seen, out>>
           ELSE /\ seen' = seen \cup {cur} /\ out' = Append(out, cur)
                /\ cur' = next[cur] /\ UNCHANGED status
        /\ UNCHANGED <<start, next>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

\* Places reachable from the start, by the pointers alone.
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup {next[p] : p \in S \cap Places} IN IF T = S THEN S ELSE Grow(T)
Reached == Grow({start})

\* A chain is good iff it ends and never leaves: since each place has one
\* pointer, that excludes coming back.
Good == 0 \in Reached
EndsRight == /\ status = "ok" => Good
             /\ status = "bad" => ~ Good
\* Every place of a good chain is read exactly once, in pointer order.
ReadsAll == status = "ok" =>
               /\ {out[i] : i \in 1..Len(out)} = Reached \cap Places
               /\ Cardinality(Reached \cap Places) = Len(out)
               /\ Len(out) > 0 => out[1] = start
               /\ \A i \in 1..(Len(out) - 1) : next[out[i]] = out[i + 1]
\* No walk takes more steps than there are places.
Bounded == Len(out) <= N
\* The functional form used by the byte-level specifications agrees.
Agrees == status # "walking" =>
             LET w == Chain(start, 0, LAMBDA p : p \in Places, LAMBDA p : next[p])
             IN w.ok = (status = "ok") /\ w.seq = out
Ends == <>(status # "walking")

\* For the case generator: one line per graph.
Printed == (status = "walking" /\ out = <<>> /\ cur = start /\ seen = {}) =>
              PrintT("GRAPH " \o ToJson(<<start>> \o [p \in Places |-> next[p]]))
Once == status = "walking" /\ out = <<>>
=============================================================================
