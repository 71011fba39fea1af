---------------------------- MODULE DamagedTrace ----------------------------
(* C13: opening, listing and reading damaged images ends, with a result or   *)
(* an error.  (What is read where is judged by the traces of C10-C12; that a *)
(* correct reader ends on every graph of pointers is checked in MCChains and *)
(* MCDamaged.)  A call that never came back is recorded as "died".           *)
EXTENDS TraceCommon

VARIABLES l, bad

\* calls: what was called, and how it ended: 1 result, 0 error, otherwise not.
CallsBad(e) == {<<"C13", e.calls[k].op \o " of a damaged image did not return properly">> :
                   k \in {j \in 1..Len(e.calls) : e.calls[j].end \notin {0, 1}}}
Judge(e) == IF e.ev = "died" THEN {<<"C13", "an operation on a damaged image " \o e.how>>} ELSE CallsBad(e)

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
