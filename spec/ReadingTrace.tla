---------------------------- MODULE ReadingTrace ----------------------------
(* C23: sessions with real images, checked against Reading.                 *)
EXTENDS Reading, TraceCommon

VARIABLES l, K, bad
vars == <<l, K, bad>>

HowBad(e) == IF e.how = "ok" THEN {} ELSE {<<"C23", "an operation did not return (" \o e.how \o ")">>}

NextOn(e) ==
    CASE e.ev = "open" -> K' = Start(e.img) /\ bad' = {}
      [] e.ev = "ask" -> /\ bad' = HowBad(e) \cup AskBad(K, e.q, e.a, e.img, Flag(e.fresh))
                         /\ K' = AskNext(K, e.q, e.a)
      [] e.ev = "write" -> /\ bad' = HowBad(e) \cup WriteBad(K, Flag(e.able), Flag(e.err), e.img)
                           /\ K' = WriteNext(K, e.img)
      [] e.ev = "scribble" -> bad' = ScribbleBad(K, e.img) /\ K' = K
      [] e.ev = "died" -> K' = K /\ bad' = {<<"C23", "the operation " \o e.how>>}

TraceInit == l = 0 /\ K = Start(0) /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ NextOn(Lines[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
