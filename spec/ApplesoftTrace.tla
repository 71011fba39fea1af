--------------------------- MODULE ApplesoftTrace ---------------------------
(* C16: what the real decoder and listing did.                              *)
EXTENDS Applesoft, ControlCodes, TraceCommon

VARIABLES l, bad

Complain(cond, what) == IF cond THEN {} ELSE {<<"C16", what>>}

Want(e) == Decoded(e.raw, e.loc)
Listings(lines) == {Listed(lines, sp) : sp \in BOOLEAN}

\* raw, loc; lines (num, text), listing.
DecodeBad(e) ==
    IF e.how # "ok" THEN {<<"C16", "decoding did not return (" \o e.how \o ")">>}
    ELSE LET w == Want(e)
         IN IF ~ w.ok THEN Complain(Flag(e.err), "a malformed program was not refused")
            ELSE IF Flag(e.err) THEN {<<"C16", "a well-formed program was refused">>}
            ELSE Complain(e.lines = w.lines, "the lines are not the program's")
                 \cup Complain(e.listing \in Listings(w.lines), "the listing is not the program's")

\* The program: out is standard output.
ShowBad(e) ==
    IF e.how # "ok" THEN {<<"C16", "the decode command did not end properly (" \o e.how \o ")">>}
    ELSE LET w == Want(e)
         IN IF ~ w.ok THEN Complain(e.rc # 0, "a malformed program was not refused")
            ELSE IF e.rc # 0 THEN {<<"C16", "a well-formed program was refused">>}
            ELSE IF Flag(e.rawopt) THEN Complain(e.out \in Listings(w.lines), "the raw listing is not the program's")
            ELSE Complain(\E t \in Listings(w.lines) : \E x \in Escapes : e.out = Visible(t, x), "the listing shown is not the program's")

VisibleBad(e) ==
    IF e.how # "ok" THEN {<<"C16", "making control characters visible did not return">>}
    ELSE Complain(\E x \in Escapes : e.out = Visible(e.text, x), "control characters are not shown as codes, or others are")

Judge(e) ==
    CASE e.ev = "decode" -> DecodeBad(e)
      [] e.ev = "show" -> ShowBad(e)
      [] e.ev = "visible" -> VisibleBad(e)
      [] e.ev = "died" -> {<<"C16", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
