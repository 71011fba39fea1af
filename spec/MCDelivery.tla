----------------------------- MODULE MCDelivery -----------------------------
(* The loader, run instruction by instruction on disks of every size: it    *)
(* reads the sectors of PlaceOf in order into the pages of the list, always *)
(* with the head in place, and ends in a jump to the start address.         *)
EXTENDS Delivery, Json

CONSTANTS Sizes, First, Lengths, Addresses, Gen

VARIABLES m, n
Start == First * 256 + 3
Init == n \in Sizes /\ m = B!Started(BootSector(256 * n, First * 256, Start))
Next == m.state = "run" /\ m' = B!Step(m) /\ UNCHANGED n
Spec == Init /\ [][Next]_<<m, n>> /\ WF_<<m, n>>(Next)

Ends == <>(m.state # "run")
InOrder == \A k \in 1..Len(m.loads) : k = Len(m.loads) =>
              /\ m.loads[k].page = First + k - 1
              /\ m.loads[k].track = PlaceOf(k - 1).track /\ m.loads[k].sector = PlaceOf(k - 1).sector
Complete == m.state # "run" => m.state = "done" /\ m.jump = Start /\ Len(m.loads) = n
SmallStack == Len(m.stack) <= 6

\* Cases at and around the limits.
Starts(a, k) == {65535, a, a + 1, a - 1, a + k - 1, a + k, 0} \cap 0..65535
ASSUME Gen => \A a \in Addresses : \A k \in Lengths \cup {49152 - a, 49153 - a} : \A s \in Starts(a, k) :
                 k >= 0 => PrintT("SD " \o ToJson(<<k, a, s>>))
=============================================================================
