---------------------------- MODULE IntegerTrace ----------------------------
(* C17: what the real decoder and listing did.                              *)
EXTENDS IntegerBasic, ControlCodes, TraceCommon

VARIABLES l, bad

Complain(cond, what) == IF cond THEN {} ELSE {<<"C17", what>>}

\* raw; lines (num, text), strs (each line's listing), listing (the whole).
DecodeBad(e) ==
    IF e.how # "ok" THEN {<<"C17", "decoding or listing did not return (" \o e.how \o ")">>}
    ELSE LET w == Decoded(e.raw)
         IN IF ~ w.ok THEN Complain(Flag(e.err), "a malformed program was not refused")
            ELSE IF Flag(e.err) THEN Complain(w.rest > 0, "a well-formed program was refused")
            ELSE Complain(e.lines = w.lines, "the lines are not the program's")
                 \cup Complain(e.lines # w.lines \/ \A i \in 1..Len(w.lines) : Listable(w.lines[i].text) => e.strs[i] = LineListed(w.lines[i]),
                        "a line is not listed as it is")
                 \cup Complain(e.lines # w.lines \/ (\A i \in 1..Len(w.lines) : Listable(w.lines[i].text)) => e.listing = Listed(w.lines),
                        "the listing is not the lines'")

\* A line on its own.
LineBad(e) ==
    IF e.how # "ok" THEN {<<"C17", "listing a line did not return (" \o e.how \o ")">>}
    ELSE Complain(Listable(e.text) => e.out = LineListed([num |-> e.num, text |-> e.text]), "a line is not listed as it is")

\* Control characters made visible.
VisibleBad(e) ==
    IF e.how # "ok" THEN {<<"C17", "making control characters visible did not return">>}
    ELSE Complain(\E x \in Escapes : e.out = Visible(e.text, x), "control characters are not shown as codes, or others are")

Judge(e) ==
    CASE e.ev = "decode" -> DecodeBad(e)
      [] e.ev = "line" -> LineBad(e)
      [] e.ev = "visible" -> VisibleBad(e)
      [] e.ev = "died" -> {<<"C17", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
