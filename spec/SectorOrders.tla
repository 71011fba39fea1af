---------------------------- MODULE SectorOrders ----------------------------
(* Sector orders of 16-sector floppy images.  A track has 16 physical       *)
(* sectors; a file (and a system) numbers them logically.  An image is the  *)
(* sequence of its sectors, Len = 16 * tracks, place t*16+s+1 for logical   *)
(* sector s of track t.                                                     *)
EXTENDS Bytes

SPT == 16

\* Physical sector of each logical sector: Understanding the Apple II, 9-42,
\* and Understanding the Apple IIe, 9-43.
Table(order) ==
    CASE order = "do"  -> <<0, 13, 11, 9, 7, 5, 3, 1, 14, 12, 10, 8, 6, 4, 2, 15>>
      [] order = "po"  -> <<0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15>>
      [] order = "raw" -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>

Orders == {"do", "po", "raw"}

IsPermutation(q) == Len(q) = SPT /\ {q[i] : i \in 1..Len(q)} = 0..(SPT - 1)

\* Logical sector of each physical sector.
Inverse(q) == [p \in 1..SPT |-> (CHOOSE s \in 1..SPT : q[s] = p - 1) - 1]

\* Sector s of every track moves to sector q[s]: where each place's content
\* comes from.
Place(t, s) == t * SPT + s + 1
TrackOf(i) == (i - 1) \div SPT
SecOfPlace(i) == (i - 1) % SPT

Permuted(img, q) ==
    LET inv == TLCEval(Inverse(q))
    IN TLCEval([i \in 1..Len(img) |-> img[Place(TrackOf(i), inv[SecOfPlace(i) + 1])]])

\* Logical sector l in order a is logical sector Across(a, b)[l] in order b.
Across(a, b) == LET inv == Inverse(Table(b)) IN [s \in 1..SPT |-> inv[Table(a)[s] + 1]]

\* The same disk in another order.
Converted(img, a, b) == IF a = b THEN img ELSE Permuted(img, Across(a, b))

----------------------------------------------------------------------------
(* Which way a conversion goes.                                             *)

Guess(name) ==
    LET e == Extension(name)
    IN IF e \in {ExtDsk, ExtDo} THEN "do" ELSE IF e = ExtPo THEN "po" ELSE "?"

Opposite(o) == IF o = "do" THEN "po" ELSE "do"

\* [from, to], or from = "?" if it is identical or undetermined.
Direction(order, newOrder, name, newName) ==
    LET No == [from |-> "?", to |-> "?"]
        gi == Guess(name)
        go == Guess(newName)
    IN IF order # "auto" \/ newOrder # "auto"
       THEN IF order = newOrder THEN No
            ELSE IF order = "auto" THEN [from |-> Opposite(newOrder), to |-> newOrder]
            ELSE IF newOrder = "auto" THEN [from |-> order, to |-> Opposite(order)]
            ELSE [from |-> order, to |-> newOrder]
       ELSE IF gi = go THEN No
            ELSE IF gi = "?" THEN [from |-> Opposite(go), to |-> go]
            ELSE IF go = "?" THEN [from |-> gi, to |-> Opposite(gi)]
            ELSE [from |-> gi, to |-> go]
=============================================================================
