---------------------------- MODULE NumbersTrace ----------------------------
(* C25: runs of commands with texts for numbers.                            *)
EXTENDS Hello, TraceCommon

N == INSTANCE Numbers
RealFileNums == 1..253
RealFileOf(a) == IF a \in 57089..57341 THEN a - 57088 ELSE 0

VARIABLES l, bad

\* The address found in what was written: FHELLO's jump or load address, the
\* start or first page in a boot sector.
Found(e) ==
    CASE e.opt = "hello-start" -> LET m == Meaning(e.code) IN IF m.state = "done" THEN m.jump ELSE N!NaN
      [] e.opt = "hello-address" -> LET m == Meaning(e.code) IN IF m.state = "done" /\ Len(m.loads) = 1 THEN m.loads[1].addr ELSE N!NaN
      [] e.opt = "sd-start" -> IF Len(e.code) < 256 THEN N!NaN ELSE e.code[78] + 256 * e.code[79]
      [] e.opt = "sd-address" -> IF Len(e.code) < 256 THEN N!NaN ELSE 256 * e.code[80]
      [] OTHER -> 0

Judge(e) ==
    IF e.ev = "died" THEN {<<"C25", "the operation " \o e.how>>}
    ELSE N!NumberBad(e.opt, e.text, e.base, e.n,
                     [how |-> e.how, err |-> e.rc # 0, same |-> Flag(e.same), got |-> IF e.rc # 0 THEN N!NaN ELSE Found(e)])

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
