--------------------------- MODULE PrintingTrace ----------------------------
(* C24: runs of `ls` and `dump`, with what the library said of the image.   *)
EXTENDS Printing, TraceCommon

VARIABLES l, bad

Judge(e) ==
    IF e.ev = "died" THEN {<<"C24", "the operation " \o e.how>>}
    ELSE PrintBad([cmd |-> e.cmd, short |-> Flag(e.short), dir |-> Flag(e.dir)],
                  [opened |-> Flag(e.opened), subdirs |-> Flag(e.subdirs), ok |-> Flag(e.ok), names |-> e.names, data |-> e.data],
                  [how |-> e.how, rc |-> e.rc, out |-> e.out, said |-> Flag(e.said)])

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
