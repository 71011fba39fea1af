---------------------------- MODULE DeliveryTrace ---------------------------
(* C18: what `diskii mksd` wrote.                                           *)
EXTENDS Delivery, TraceCommon

VARIABLES l, bad

Complain(cond, what) == IF cond THEN {} ELSE {<<"C18", what>>}

\* What is neither boot sector nor a page of the binary is empty.
RestEmpty(phys, used) ==
    Complain(\A i \in 2..Len(phys) : i \notin used => phys[i] = 0, "the rest of the disk is not empty")

\* Loaded into memory by running the boot sector: page and content of each.
Boots(e, phys, a, s) ==
    LET m == TLCEval(B!Booted(e.boot))
        first == a \div 256
        n == Pages(e.n)
        From(k) == Place(m.loads[k].track, m.loads[k].sector)
    IN IF m.state # "done" THEN {<<"C18", "the loader does not come to an end">>}
       ELSE Complain(m.jump = s, "the loader does not jump to the start address")
            \cup Complain(/\ \A k \in 1..Len(m.loads) : m.loads[k].page \in first..(first + n - 1)
                          /\ \A p \in 1..n : \E k \in 1..Len(m.loads) :
                               /\ m.loads[k].page = first + p - 1
                               /\ phys[From(k)] = e.data[p]
                               /\ \A j \in (k + 1)..Len(m.loads) : m.loads[j].page # first + p - 1,
                          "the loader does not place the binary at its address")
            \cup RestEmpty(phys, {From(k) : k \in 1..Len(m.loads)})

\* As published, where running it would not tell.
AsPublished(e, phys, a, s) ==
    Complain(e.boot = BootSector(e.n, a, s), "the boot sector is not the loader with its list")
    \cup Complain(\A k \in 1..Pages(e.n) : phys[Place(PlaceOf(k - 1).track, PlaceOf(k - 1).sector)] = e.data[k],
                  "a page is not where the loader looks for it")
    \cup RestEmpty(phys, {Place(PlaceOf(k - 1).track, PlaceOf(k - 1).sector) : k \in 1..Pages(e.n)})

WrittenBad(e, a, s) ==
    IF e.size # 143360 THEN {<<"C18", "the image is not a floppy disk's size">>}
    ELSE \* sector 0 is sector 0 in every order
         LET phys == TLCEval(Converted(e.con, OrderFor(e.opt, e.name), "raw"))
         IN IF Delicate(e.n, a) = {} THEN Boots(e, phys, a, s) ELSE AsPublished(e, phys, a, s)

SdBad(e) ==
    LET a == e.addr
        s == StartOf(e.addr, e.start)
    IN IF e.how # "ok" THEN {<<"C18", "the command did not return (" \o e.how \o ")">>}
       ELSE IF ~ Accepted(e.n, a, s)
       THEN Complain(e.rc # 0, "what cannot be delivered was accepted") \cup Complain(Flag(e.kept), "a refused command wrote something")
       ELSE IF e.rc # 0 THEN {<<"C18", "what can be delivered was refused">>}
       ELSE WrittenBad(e, a, s)

Judge(e) == CASE e.ev = "sd" -> SdBad(e)
              [] e.ev = "died" -> {<<"C18", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
