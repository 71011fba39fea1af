--------------------------- MODULE FreeMapsTrace ---------------------------
(* C21: what the real maps and tables answered, call by call.               *)
EXTENDS FreeMaps, TraceCommon

VARIABLES l, bad,
          n,     \* blocks of the volume bitmap in hand
          used,  \* the blocks marked used
          vals   \* what the index block in hand holds

Complain(cond, what) == IF cond THEN {} ELSE {<<"C21", what>>}
Range(s) == {s[i] : i \in 1..Len(s)}
Returned(e) == Complain(e.how = "ok", "the operation did not return (" \o e.how \o ")")

\* not: the blocks below n that the map says are not free.
AnswerBad(e, N, U) ==
    Returned(e) \cup (IF e.how = "ok" THEN Complain(Range(e.not) = U /\ Len(e.not) = Cardinality(U), "the map answers wrongly") ELSE {})

\* Written to a device from block start: runs [value, count] of the bytes of
\* the map's blocks, and the other blocks that changed.
RECURSIVE RunsHold(_, _, _, _, _)
RunsHold(runs, k, i, U, N) ==
    IF k > Len(runs) THEN TRUE
    ELSE /\ \A j \in i..(i + runs[k][2] - 1) : ByteHolds(runs[k][1], j, U, N)
         /\ RunsHold(runs, k + 1, i + runs[k][2], U, N)
RECURSIVE RunsLength(_, _)
RunsLength(runs, k) == IF k > Len(runs) THEN 0 ELSE runs[k][2] + RunsLength(runs, k + 1)

WriteBad(e) ==
    Returned(e) \cup
    (IF e.how # "ok" THEN {}
     ELSE Complain(~ Flag(e.err), "writing the map failed")
          \cup Complain(Flag(e.err) \/ (RunsLength(e.runs, 1) = 512 * MapBlocks(n, 4096) /\ RunsHold(e.runs, 1, 0, used, n)),
                   "the stored map is wrong")
          \cup Complain(e.others = <<>>, "writing the map changed other blocks"))

TableBad(e, V) ==
    Returned(e) \cup
    (IF e.how # "ok" THEN {}
     ELSE Complain(\A s \in 0..255 : e.gets[s + 1] = V[s], "the index block returns another block number")
          \cup Complain(e.data = StoredSlots(V, 256), "the index block is stored wrongly"))

\* One byte against all values of the other: answers as numbers, bit s for sector s.
SectorsBad(e) ==
    Returned(e) \cup
    (IF e.how # "ok" THEN {}
     ELSE Complain(\A k \in 0..255 : \A s \in 0..15 : (Bit(e.masks[k + 1], s) = 1) = SectorFree(<<e.b0, k, 0, 0>>, s),
              "a sector's bit is not its answer")
          \cup Complain(e.above = 0, "a sector above 15 is reported free"))

Step(e) ==
    CASE e.ev = "new" ->
           /\ n' = e.n /\ used' = {} /\ UNCHANGED vals
           /\ \E b \in {AnswerBad(e, e.n, {})} : bad' = b
      [] e.ev = "mark" ->
           /\ UNCHANGED <<n, vals>>
           /\ \E U \in {IF Flag(e.free) THEN used \ {e.block} ELSE used \cup {e.block}} :
                used' = U /\ \E b \in {AnswerBad(e, n, U)} : bad' = b
      [] e.ev = "write" -> UNCHANGED <<n, used, vals>> /\ \E b \in {WriteBad(e)} : bad' = b
      [] e.ev = "table" ->
           /\ UNCHANGED <<n, used>>
           /\ \E V \in {TLCEval([s \in 0..255 |-> SlotOf(e.init, 256, s)])} :
                vals' = V /\ \E b \in {TableBad(e, V)} : bad' = b
      [] e.ev = "slot" ->
           /\ UNCHANGED <<n, used>>
           /\ \E V \in {[vals EXCEPT ![e.slot] = e.v]} :
                vals' = V /\ \E b \in {TableBad(e, V)} : bad' = b
      [] e.ev = "sectors" -> UNCHANGED <<n, used, vals>> /\ \E b \in {SectorsBad(e)} : bad' = b
      [] e.ev = "died" -> UNCHANGED <<n, used, vals>> /\ bad' = {<<"C21", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {} /\ n = 0 /\ used = {} /\ vals = <<>>
TraceNext == l < NumLines /\ l' = l + 1 /\ Step(Lines[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, n, used, vals>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
