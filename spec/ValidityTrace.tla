--------------------------- MODULE ValidityTrace ----------------------------
(* C26: what the real validation said of recorded blocks.                   *)
EXTENDS Validity, TraceCommon

VARIABLES l, bad
D == INSTANCE Dos33

\* One block with one byte replaced by each of a number of values.
SweepBad(e) ==
    UNION {Judgement(e.kind2, TLCEval([e.base EXCEPT ![e.off + 1] = e.vals[i]]), e.ns[i]) : i \in 1..Len(e.vals)}

\* A new VTOC: valid, of a 35-track disk, all sectors of all tracks free, the
\* catalog starting at track 17, sector 15.
DefaultBad(e) ==
    CV(e.n = 0 /\ D!ValidVTOC(e.base), "a new VTOC is not valid")
    \cup CV(At(e.base, 1) = 17 /\ At(e.base, 2) = 15 /\ At(e.base, 53) = 16, "a new VTOC is not that of a standard disk")
    \cup CV(\A t \in 0..49 : \A i \in 0..3 : At(e.base, 56 + 4 * t + i) = (IF t < 35 /\ i < 2 THEN 255 ELSE 0),
            "in a new VTOC not all sectors of the disk, or others, are free")

Judge(e) ==
    IF e.how # "ok" THEN {<<"C26", "validation did not return (" \o e.how \o ")">>}
    ELSE CASE e.ev = "block" -> Judgement(e.kind2, e.base, e.n)
           [] e.ev = "sweep" -> SweepBad(e)
           [] e.ev = "default" -> DefaultBad(e)
           [] e.ev = "vtoc" -> UNION {LET v == TLCEval([e.base EXCEPT ![e.off + 1] = e.vals[i]])
                                      IN CV((e.ns[i] = 0) = D!ValidVTOC(v), "a good VTOC was complained about, or a bad one not") : i \in 1..Len(e.vals)}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
