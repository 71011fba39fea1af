--------------------------- MODULE MCSectorOrders ---------------------------
(* A disk that is opened for systems of any order, changed, written back in *)
(* any file order and reordered.  phys is what is really on the disk, by    *)
(* physical sector: the file and what the system sees must always agree     *)
(* with it.                                                                 *)
EXTENDS SectorOrders

CONSTANTS Values, Changed      \* sector contents; logical sectors that get changed

VARIABLES phys, file, order, sess, sys
vars == <<phys, file, order, sess, sys>>

\* One track suffices: nothing crosses tracks.
Start == [i \in 1..SPT |-> i]
View(p, o) == TLCEval([s \in 1..SPT |-> p[Table(o)[s] + 1]])

Init == /\ phys = Start /\ order \in {"do", "po"} /\ file = View(phys, order)
        /\ sess = <<>> /\ sys = "none"

Open == /\ sess = <<>>
        /\ \E y \in Orders : sys' = y /\ sess' = Converted(file, order, y)
        /\ UNCHANGED <<phys, file, order>>
\* Content v in logical sector s.
Change == /\ sess # <<>>
          /\ \E s \in Changed, v \in Values :
               /\ sess' = [sess EXCEPT ![s + 1] = v]
               /\ phys' = [phys EXCEPT ![Table(sys)[s + 1] + 1] = v]
          /\ UNCHANGED <<file, order, sys>>
Save == /\ sess # <<>>
        /\ file' = Converted(sess, sys, order) /\ sess' = <<>> /\ sys' = "none"
        /\ UNCHANGED <<phys, order>>
Reorder == /\ sess = <<>> /\ order' = Opposite(order) /\ file' = Converted(file, order, order')
           /\ UNCHANGED <<phys, sess, sys>>
Next == Open \/ Change \/ Save \/ Reorder
Spec == Init /\ [][Next]_vars

FileAgrees == sess = <<>> => file = View(phys, order)
SessionAgrees == sess # <<>> => sess = View(phys, sys)

\* Tables: permutations; published inverses; conversions undo each other.
Physical2Do == <<0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15>>
Physical2Po == <<0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15>>
ASSUME \A o \in Orders : IsPermutation(Table(o)) /\ IsPermutation(Inverse(Table(o)))
ASSUME Inverse(Table("do")) = Physical2Do /\ Inverse(Table("po")) = Physical2Po
ASSUME \A a, b \in Orders : Converted(Converted(Start, a, b), b, a) = Start
ASSUME \A a, b, c \in Orders : Converted(Converted(Start, a, b), b, c) = Converted(Start, a, c)
\* A conversion asked for the other way round goes the other way round.
Names == {<<97>> \o e : e \in {ExtDsk, ExtDo, ExtPo, ExtHdv, <<>>, <<46, 80, 79>>, <<46, 68, 83, 75>>}}
ASSUME \A a, b \in {"auto", "do", "po"}, n, m \in Names :
         LET d == Direction(a, b, n, m)
             r == Direction(b, a, m, n)
         IN d.from # "?" => d.from # d.to /\ r = [from |-> d.to, to |-> d.from]
=============================================================================
