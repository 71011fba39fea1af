----------------------------- MODULE HelloTrace -----------------------------
(* C19: what `diskii nakedos mkhello` did to images, run after run.         *)
EXTENDS Hello, TraceCommon

RealFileNums == 1..253
RealFileOf(a) == IF a \in 57089..57341 THEN a - 57088 ELSE 0
AllAsked == {"C04", "C05", "C06", "C07", "C08", "C09"}

VARIABLES l, S, bad
vars == <<l, S, bad>>

Nothing == [own |-> <<>>, sec |-> <<>>, con |-> <<>>, head |-> 0, tab |-> <<>>, st |-> FALSE]

StateOf(e) ==
    [own |-> e.own, sec |-> SecOf(e.own), con |-> e.con, head |-> e.head,
     tab |-> TLCEval([i \in {j \in Slots : e.sinv[j + 1] # 0} |->
                        SlotOf(e.dslots[e.sinv[i + 1]][2], e.dslots[e.sinv[i + 1]][3])]),
     st |-> Flag(e.st)]

\* One run; T: the disk after it.
RunBad(e, T) ==
    IF ~ RefInContract(e.name) \/ (S.st /\ Cardinality(SlotsNamed(S.tab, HelloName)) > 1) THEN {}
    ELSE HelloBad(S, T, e.name, e.addr, e.start,
                  [how |-> e.how, err |-> e.rc # 0, same |-> Flag(e.same), whole |-> Flag(e.whole)], e.code)

\* A disk of another system, or none.
OtherBad(e) ==
    IF e.how # "ok" THEN {<<"C19", "the command did not return (" \o e.how \o ")">>}
    ELSE C19(e.rc # 0, "mkhello accepted a disk of another system") \cup C19(Flag(e.same), "a refused mkhello changed the image")

NextOn(e) ==
    CASE e.ev = "init" -> \E T \in {StateOf(e)} : S' = T /\ bad' = {}
      [] e.ev = "hello" -> \E T \in {IF Flag(e.same) \/ ~ Flag(e.whole) THEN S ELSE StateOf(e)} :
                             \E b \in {RunBad(e, T)} : S' = T /\ bad' = b
      [] e.ev = "other" -> S' = S /\ bad' = OtherBad(e)
      [] e.ev = "died" -> S' = S /\ bad' = {<<"C19", "the operation " \o e.how>>}

TraceInit == l = 0 /\ S = Nothing /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ NextOn(Lines[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
