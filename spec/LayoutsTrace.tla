---------------------------- MODULE LayoutsTrace ----------------------------
(* C14: what the real parsing and serialising code did.                     *)
EXTENDS Layouts, TraceCommon

VARIABLES l, bad

Complain(cond, what) == IF cond THEN {} ELSE {<<"C14", what>>}

\* The fields both sides know (the code may keep a field differently).
Shared(e) == (DOMAIN e.fields) \cap DOMAIN ByName[e.st]

\* st, data, fields (name to value), out (bytes after serialising).
ParseBad(e) ==
    IF e.how # "ok" THEN {<<"C14", "parsing or serialising did not return (" \o e.how \o ")">>}
    ELSE IF Flag(e.err) THEN {<<"C14", "parsing or serialising failed">>}
    ELSE Complain(e.out = e.data, "serialising what was parsed does not reproduce the bytes")
         \cup Complain(\A n \in Shared(e) : e.fields[n] = Value(ByName[e.st][n], e.data), "a field is not taken from its place")

\* The places that differ when a field is set to a value different in every byte.
Changes(f, v) == LET b == Encoded(f, v) IN {<<f.off + i - 1, b[i]>> : i \in 1..f.width}
Range(s) == {s[i] : i \in 1..Len(s)}

\* One field after another set in a freshly parsed structure.  sets: records
\* of name, v (the value) and diff (places and bytes that then differ).
SetBad(e) ==
    IF e.how # "ok" THEN {<<"C14", "serialising did not return (" \o e.how \o ")">>}
    ELSE Complain(\A i \in 1..Len(e.sets) :
                    LET s == e.sets[i] IN
                    s.name \in DOMAIN ByName[e.st] => Range(s.diff) = Changes(ByName[e.st][s.name], s.v),
                  "a field is not stored at its place")

\* Loading from a unit, storing, setting a field, storing.
PlaceBad(e) ==
    IF e.how # "ok" THEN {<<"C14", "loading or storing did not return (" \o e.how \o ")">>}
    ELSE IF e.unit >= e.units
    THEN Complain(Flag(e.err) /\ e.diff0 = <<>> /\ e.diff1 = <<>>, "a place off the device was not refused")
    ELSE Complain(~ Flag(e.err), "loading or storing failed")
         \cup Complain(e.diff0 = <<>>, "storing what was loaded changed the device")
         \cup Complain(e.name \in DOMAIN ByName[e.st] =>
                Range(e.diff1) = {<<e.unit, c[1], c[2]>> : c \in Changes(ByName[e.st][e.name], e.v)},
                "storing changed other than what was set, or elsewhere")

Judge(e) ==
    CASE e.ev = "parse" -> ParseBad(e)
      [] e.ev = "set" -> SetBad(e)
      [] e.ev = "place" -> PlaceBad(e)
      [] e.ev = "died" -> {<<"C14", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ \E b \in {Judge(Lines[l + 1])} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
