------------------------------ MODULE Delivery ------------------------------
(* Standard Delivery disks: a boot sector with a loader and a list of the   *)
(* pages to load, and the pages themselves in the order the loader reads.   *)
EXTENDS SectorOrders

B == INSTANCE Boot

\* The published loader; the address to start at is its last two bytes.
LoaderCode == <<
    1, 168, 238, 6, 8, 173, 78, 8, 201, 192, 240, 64, 133, 39, 200, 192, 16, 144, 9, 240, 5, 32, 47, 8, 168, 44, 160, 1,
    132, 61, 200, 165, 39, 240, 223, 138, 74, 74, 74, 74, 9, 192, 72, 169, 91, 72, 96, 230, 65, 6, 64, 32, 55, 8, 24, 32,
    60, 8, 230, 64, 165, 64, 41, 3, 42, 5, 43, 168, 185, 128, 192, 169, 48, 76, 168, 252, 76>>
Loader(start) == LoaderCode \o <<Lo(start), Hi(start)>>
EndOfList == 192
MaxPages == 256 - (Len(LoaderCode) + 2) - 1

Pages(n) == CeilDiv(n, 256)

\* What is accepted: n bytes at address a, started at s.
Accepted(n, a, s) ==
    /\ a % 256 = 0
    /\ s >= a /\ s < a + n
    /\ a + n <= 49152
    /\ Pages(n) <= MaxPages
StartOf(a, s) == IF s = 65535 THEN a ELSE s

\* The boot sector.
BootSector(n, a, s) ==
    LET head == Loader(s) \o [k \in 1..Pages(n) |-> (a \div 256) + k - 1] \o <<EndOfList>>
    IN head \o Zeros(256 - Len(head))

\* Where the loader finds the k-th page (from 0): every second sector, even
\* ones first, then odd ones; the boot sector is the first.
PlaceOf(k) ==
    LET i == k + 1
        r == i % 16
    IN [track |-> i \div 16, sector |-> IF r < 8 THEN 2 * r ELSE 2 * (r - 8) + 1]

\* Pages the start-up itself uses: what is loaded there spoils the loading.
Delicate(n, a) == {p \in (a \div 256)..((a \div 256) + Pages(n) - 1) : p \in 0..3 \cup {8}}

\* The order the file is written in.
OrderFor(opt, name) == IF opt # "auto" THEN opt ELSE IF Guess(name) = "?" THEN "do" ELSE Guess(name)
=============================================================================
