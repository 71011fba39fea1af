---------------------------- MODULE SectorsTrace ----------------------------
(* C01, C02 and C22: what the real sector-level code did, call by call.     *)
EXTENDS SectorOrders, TraceCommon

VARIABLES l, bad

Complain(p, cond, what) == IF p # Prop THEN {} ELSE IF cond THEN {} ELSE {<<p, what>>}

FloppyBytes == 143360

\* Swizzle: order, n (bytes), img, out, err.
SwizzleBad(e) ==
    IF e.how # "ok" THEN {<<"C01", "reordering did not return (" \o e.how \o ")">>}
    ELSE IF e.n # FloppyBytes \/ ~ IsPermutation(e.order)
    THEN Complain("C01", Flag(e.err), "an image of another size or a bad sector order was not refused")
         \cup Complain("C01", e.n # FloppyBytes \/ e.after = e.img, "a refused reordering changed its input")
    ELSE Complain("C01", ~ Flag(e.err), "reordering a floppy image failed")
         \cup Complain("C01", Flag(e.err) \/ e.out = Permuted(e.img, e.order), "sectors are not where the order puts them")
         \cup Complain("C01", e.after = e.img, "reordering changed its input")

\* diskii reorder: opt, newopt, name, newname, rc, how, n, img, out (<<>>: none written).
ReorderBad(e) ==
    LET d == Direction(e.opt, e.newopt, e.name, e.newname)
    IN IF e.how # "ok" THEN {<<"C01", "reorder did not end properly (" \o e.how \o ")">>}
       ELSE IF d.from = "?" \/ e.n # FloppyBytes
       THEN Complain("C01", e.rc # 0, "a conversion that cannot be made was not refused")
            \cup Complain("C01", Flag(e.kept), "a refused conversion changed a file")
       ELSE Complain("C01", e.rc = 0, "a conversion was refused")
            \cup Complain("C01", e.rc # 0 \/ e.out = Converted(e.img, d.from, d.to), "the converted image is wrong")

\* Opening in file order e.fo for a system of order e.so, changing sectors,
\* writing back.  ch: <<place, content>>.
Put(img, ch) == TLCEval([i \in 1..Len(img) |->
                   IF \E k \in 1..Len(ch) : ch[k][1] = i
                   THEN ch[CHOOSE k \in 1..Len(ch) : ch[k][1] = i][2] ELSE img[i]])

OpenBad(e) ==
    IF e.how # "ok" THEN {<<"C02", "opening or writing back did not return (" \o e.how \o ")">>}
    ELSE IF Flag(e.err) THEN Complain("C02", FALSE, "opening or writing back failed")
    ELSE LET seen == Converted(e.img, e.fo, e.so)
         IN Complain("C02", e.seen = seen, "the system does not see its own sector order")
            \cup Complain("C02", e.rorder = e.fo, "the file order reported is not the file's")
            \cup Complain("C02", e.out = Converted(Put(seen, e.ch), e.so, e.fo),
                     IF e.ch = <<>> THEN "writing back unmodified did not reproduce the file"
                     ELSE "writing back changed other than the modified sectors")

\* An image of another size is written back as it is.
VerbatimBad(e) ==
    IF e.how # "ok" THEN {<<"C02", "writing back did not return (" \o e.how \o ")">>}
    ELSE Complain("C02", ~ Flag(e.err) /\ e.out = e.img /\ e.outn = e.n, "an image that is not floppy-sized was not written back verbatim")

----------------------------------------------------------------------------
(* C22.  One line has the calls for all sectors 0-255 of a track (blocks    *)
(* 256*hi..256*hi+255 of a device).  Unit i of the image holds token i+1.   *)

ReadsSector(e, s) == s < SPT /\ (e.track * SPT + s + 1) * 256 <= e.n
ReadsBlock(e, b) == (256 * e.hi + b + 1) * 512 <= e.n

\* tok: what was read (0 if nothing), alias: copy and image affect each other.
ReadRowBad(e, Legal(_, _), first) ==
    UNION {
     Complain("C22", \A k \in 0..255 : Legal(e, k) = ~ Flag(e.errs[k + 1]), "reading succeeded or failed where it should not"),
     Complain("C22", \A k \in 0..255 : Flag(e.errs[k + 1]) \/ e.tok[k + 1] = first + k + 1, "reading returned other data"),
     Complain("C22", e.alias = 0, "a copy read and the image affect each other"),
     Complain("C22", \A k \in 0..255 : Flag(e.errs[k + 1]) \/ e.idx[k + 1] = k, "the place loaded from was not recorded"),
     Complain("C22", e.how = "ok", "reading did not return")}

\* dat: token written at k; ch: <<unit (from 0), content>> that differ afterwards, for each k.
WriteRowBad(e, Legal(_, _), first) ==
    UNION {
     Complain("C22", \A k \in 0..255 : Legal(e, k) = ~ Flag(e.errs[k + 1]), "writing succeeded or failed where it should not"),
     Complain("C22", \A k \in 0..255 : Legal(e, k) => e.ch[k + 1] = <<<<first + k, e.dat[k + 1]>>>>,
              "writing did not replace exactly the unit named"),
     Complain("C22", \A k \in 0..255 : ~ Legal(e, k) => e.ch[k + 1] = <<>>, "a refused write changed the image"),
     Complain("C22", e.how = "ok", "writing did not return")}

\* Whole rows on large devices: diff: all units that differ after 256 writes.
WriteAllBad(e) ==
    LET legal == {k \in 0..255 : ReadsBlock(e, k)}
        want == {<<256 * e.hi + k, e.dat[k + 1]>> : k \in legal}
    IN UNION {
        Complain("C22", \A k \in 0..255 : (k \in legal) = ~ Flag(e.errs[k + 1]), "writing succeeded or failed where it should not"),
        Complain("C22", {e.diff[k] : k \in 1..Len(e.diff)} = want, "writing did not replace exactly the units named"),
        Complain("C22", e.how = "ok", "writing did not return")}

WrongLengthBad(e) ==
    Complain("C22", e.how = "ok" /\ Flag(e.err) /\ e.same = 1, "data of the wrong length was not refused")

Judge(e) ==
    CASE e.ev = "swizzle" -> SwizzleBad(e)
      [] e.ev = "reorder" -> ReorderBad(e)
      [] e.ev = "open" -> OpenBad(e)
      [] e.ev = "verbatim" -> VerbatimBad(e)
      [] e.ev = "rsec" -> ReadRowBad(e, ReadsSector, e.track * SPT)
      [] e.ev = "rblk" -> ReadRowBad(e, ReadsBlock, 256 * e.hi)
      [] e.ev = "wsec" -> WriteRowBad(e, ReadsSector, e.track * SPT)
      [] e.ev = "wblk" -> WriteRowBad(e, ReadsBlock, 256 * e.hi)
      [] e.ev = "wall" -> WriteAllBad(e)
      [] e.ev = "wlen" -> WrongLengthBad(e)
      [] e.ev = "died" -> {<<p, "the operation " \o e.how>> : p \in {"C01", "C02", "C22"}}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
