---------------------------- MODULE OpeningTrace ----------------------------
(* C03: which system and order the real code chose, for stand-in systems of  *)
(* known answers and for the real ones on images given byte by byte.         *)
EXTENDS Opening, TraceCommon

O == INSTANCE SectorOrders
D == INSTANCE Dos33
P == INSTANCE ProDOS

VARIABLES l, img, tab, bad

Complain(cond, what) == IF cond THEN {} ELSE {<<"C03", what>>}

\* The outcome e has err, sys, rorder, seen (how the system's bytes are
\* arranged, as conversion from that file order) against a decision.
OutcomeBad(e, facs, d) ==
    IF ~ d.ok THEN Complain(Flag(e.err), "an image that should be refused was opened")
    ELSE IF Flag(e.err) THEN Complain(FALSE, "an image was refused")
    ELSE Complain(e.sys = facs[d.fac].name, "an image was opened as another system")
         \cup Complain(e.rorder = d.order, "an image was opened in another order")
         \cup Complain(Flag(e.seen[d.order]), "the system was not given the content in its own order")

\* Stand-ins.
StubFacs(e) == [k \in 1..Len(e.facs) |->
                  [name |-> e.facs[k].name,
                   seems |-> [o \in {"do", "po"} |-> Flag(e.facs[k].seems[o])],
                   opens |-> [o \in {"do", "po"} |-> Flag(e.facs[k].opens[o])]]]
StubBad(e) ==
    IF DecisionOpen(e.order, e.name, e.n) THEN {}
    ELSE OutcomeBad(e, e.facs, Decision(StubFacs(e), e.order, e.system, e.name, e.n))

----------------------------------------------------------------------------
(* The real systems: what they should make of the image, in either order:    *)
(* "yes", "no" or "open".                                                    *)

Names == <<"dos3", "nakedos", "prodos">>
OrderOfSystem(s) == CASE s = "dos3" -> "do" [] s = "nakedos" -> "raw" [] s = "prodos" -> "po"

\* NakedOS: the sector map in sectors 9 (from $D0), A and B of track 0 has
\* the first 12 sectors of the disk reserved, and no zeros.
NakedMap(i, at) ==
    LET S(k) == IF at[k] = 0 THEN D!ZeroSector ELSE i.secs[at[k]]
    IN Slice(S(10), 208, 48) \o S(11) \o S(12)
NakedOk(m) == (\A k \in 1..12 : m[k] = 254) /\ (\A k \in 1..560 : m[k] # 0)

\* ProDOS blocks are pairs of sectors.
Blocks(i, at) ==
    LET nz == Sorted({b \in 0..279 : at[2 * b + 1] # 0 \/ at[2 * b + 2] # 0})
        S(k) == IF at[k] = 0 THEN D!ZeroSector ELSE i.secs[at[k]]
    IN [n |-> 280, blks |-> nz, secs |-> TLCEval([j \in 1..Len(nz) |-> S(2 * nz[j] + 1) \o S(2 * nz[j] + 2)])]

Says(b) == IF b THEN "yes" ELSE "no"
Makes(i, sys, fo) ==
    LET at == O!Converted(i.at, fo, OrderOfSystem(sys))
    IN CASE sys = "dos3" -> Says(D!ValidDisk([at |-> at, secs |-> i.secs]))
         [] sys = "nakedos" -> Says(NakedOk(NakedMap(i, at)))
         [] sys = "prodos" -> LET v == P!VolumeOf(Blocks(i, at)) IN IF v.open THEN "open" ELSE Says(v.valid)

TableOf(i) == TLCEval([s \in {"dos3", "nakedos", "prodos"} |-> TLCEval([o \in {"do", "po"} |-> Makes(i, s, o)])])

\* DOS 3.3 and ProDOS open anything they are told to; NakedOS wants its map.
RealFacs == [k \in 1..3 |->
               [name |-> Names[k],
                seems |-> [o \in {"do", "po"} |-> tab[Names[k]][o] = "yes"],
                opens |-> [o \in {"do", "po"} |-> Names[k] # "nakedos" \/ tab[Names[k]][o] = "yes"]]]
Unsure == \E s \in {"dos3", "nakedos", "prodos"} : \E o \in {"do", "po"} : tab[s][o] = "open"

OpenBad(e) == IF Unsure THEN {}
              ELSE OutcomeBad(e, RealFacs, Decision(RealFacs, e.order, e.system, e.name, FloppySize))

SeemsBad(e) == IF tab[e.sys][e.fo] = "open" THEN {}
               ELSE Complain(Flag(e.seems) = (tab[e.sys][e.fo] = "yes"), "content of system " \o e.sys \o " was recognised wrongly, or not recognised")

\* diskii ls: the listing is the chosen system's.  (Names with line feeds are not judged.)
OneLine(s) == \A i \in 1..Len(s) : s[i] # 10
Listed(e, names) == (\A k \in 1..Len(names) : OneLine(names[k])) => e.rc = 0 /\ e.lines = names
LsBad(e) ==
    IF Unsure THEN {}
    ELSE LET d == Decision(RealFacs, e.order, e.system, e.name, FloppySize)
         IN IF ~ d.ok THEN Complain(e.rc # 0, "an image that should be refused was listed")
            ELSE LET sys == Names[d.fac]
                     at == O!Converted(img.at, d.order, OrderOfSystem(sys))
                 IN CASE sys = "nakedos" -> Complain(e.rc = 0, "a NakedOS disk was refused")
                      [] sys = "dos3" ->
                           IF tab["dos3"][d.order] # "yes" THEN Complain(e.rc # 0, "a disk without a valid catalog was listed")
                           ELSE LET fs == D!Files([at |-> at, secs |-> img.secs])
                                IN IF \E k \in 1..Len(fs) : ~ D!Plain(fs[k]) THEN {}
                                   ELSE Complain(Listed(e, TLCEval([k \in 1..Len(fs) |-> D!NameOf(fs[k])])), "the listing is not DOS 3.3's in the right order")
                      [] sys = "prodos" ->
                           IF tab["prodos"][d.order] # "yes" THEN Complain(e.rc # 0, "a disk without a valid directory was listed")
                           ELSE LET i == Blocks(img, at)
                                    v == P!VolumeOf(i)
                                    es == P!Listing(i, v.root)
                                IN Complain(Listed(e, TLCEval([k \in 1..Len(es) |-> P!EntryName(es[k])])), "the listing is not ProDOS's in the right order")

Judge(e) ==
    CASE e.ev = "died" -> {<<"C03", "the operation " \o e.how>>}
      [] e.how # "ok" -> {<<"C03", "opening did not return (" \o e.how \o ")">>}
      [] e.ev = "stub" -> StubBad(e)
      [] e.ev = "open" -> OpenBad(e)
      [] e.ev = "seems" -> SeemsBad(e)
      [] e.ev = "ls" -> LsBad(e)

NoImg == [at |-> <<>>, secs |-> <<>>]
TraceInit == l = 0 /\ img = NoImg /\ tab = <<>> /\ bad = {}
TraceNext == /\ l < NumLines /\ l' = l + 1
             /\ \E e \in {Lines[l + 1]} :
                  IF e.ev = "image"
                  THEN \E i \in {[at |-> e.at, secs |-> e.secs]} : \E t \in {TableOf(i)} : img' = i /\ tab' = t /\ bad' = {}
                  ELSE UNCHANGED <<img, tab>> /\ \E b \in {Judge(e)} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, img, tab, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
