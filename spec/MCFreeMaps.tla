---------------------------- MODULE MCFreeMaps ----------------------------
(* A small bitmap and a small index block kept as bytes, changed bit by bit *)
(* and byte by byte, against the set and the function they stand for.       *)
EXTENDS FreeMaps, Json

CONSTANTS N,        \* blocks of the volume
          Slots, SlotValues,
          Gen,      \* print histories
          Depth

VARIABLES used, bytes, vals, data, hist
vars == <<used, bytes, vals, data, hist>>

NumBytes == CeilDiv(N, 8)
Init == /\ used = {} /\ vals = [s \in 0..Slots - 1 |-> 0]
        /\ bytes = [i \in 1..NumBytes |-> 255]
        /\ data = Zeros(2 * Slots) /\ hist = <<>>

\* As an implementation does it.
Mark(b, free) ==
    /\ used' = IF free THEN used \ {b} ELSE used \cup {b}
    /\ LET i == b \div 8 + 1
           k == 7 - (b % 8)
           old == Bit(bytes[i], k)
           new == IF free THEN 1 ELSE 0
       IN bytes' = [bytes EXCEPT ![i] = @ + (new - old) * 2 ^ k]
    /\ hist' = IF Gen THEN Append(hist, <<b, IF free THEN 1 ELSE 0>>) ELSE hist
    /\ UNCHANGED <<vals, data>>

Set(s, v) ==
    /\ ~ Gen
    /\ vals' = [vals EXCEPT ![s] = v]
    /\ data' = [data EXCEPT ![s + 1] = v % 256, ![Slots + s + 1] = v \div 256]
    /\ UNCHANGED <<used, bytes, hist>>

Next == \/ (Gen => Len(hist) < Depth) /\ \E b \in 0..N - 1 : \E f \in BOOLEAN : Mark(b, f)
        \/ \E s \in 0..Slots - 1 : \E v \in SlotValues : Set(s, v)
Spec == Init /\ [][Next]_vars

Faithful == \A i \in 0..NumBytes - 1 : ByteHolds(bytes[i + 1], i, used, N)
Answers == \A b \in 0..N - 1 : (Bit(bytes[b \div 8 + 1], 7 - (b % 8)) = 1) = (b \notin used)
SlotsKept == data = StoredSlots(vals, Slots) /\ \A s \in 0..Slots - 1 : SlotOf(data, Slots, s) = vals[s]
\* Distinct maps have distinct stored forms for the blocks of the volume.
TrackMap == \A s \in 0..15 : SectorFree(<<2 ^ (s % 8) * (s \div 8), 2 ^ (s % 8) * (1 - (s \div 8)), 0, 0>>, s)
Printed == (Gen /\ Len(hist) = Depth) => PrintT("MARKS " \o ToJson(hist))
=============================================================================
