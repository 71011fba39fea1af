--------------------------- MODULE FiletypesTrace ---------------------------
(* C20: the real tables and lookups.                                        *)
EXTENDS Filetypes, TraceCommon

VARIABLES l, bad, full

Complain(cond, what) == IF cond THEN {} ELSE {<<"C20", what>>}

Row(x) == R(x.code, x.name, x.three, x.one, x.desc, Flag(x.extra))
RowsOf(s) == TLCEval([i \in 1..Len(s) |-> Row(s[i])])
Range(s) == {s[i] : i \in 1..Len(s)}

\* The full listing: the table, in some order.
FullBad(e, rows) ==
    IF e.how # "ok" THEN {<<"C20", "listing did not return">>}
    ELSE LET got == TLCEval(Range(rows)) IN
         Complain(Table \subseteq got, "a type is missing or described wrongly")
         \cup Complain(\A r \in got : r.code \in DOMAIN ByCode => r = ByCode[r.code], "a type is described wrongly")
         \cup Complain(Cardinality({r.name : r \in got}) = Len(rows), "a name is used twice")
         \cup Complain(Cardinality({r.code : r \in got}) = Len(rows), "a type is listed twice")
         \* the names shown with each type
         \cup Complain(\A i \in 1..Len(rows) :
                /\ Range(e.rows[i].names) \subseteq NamesOf(rows[i])
                /\ rows[i].name \in Range(e.rows[i].names)
                /\ \A x \in Range(e.rows[i].names) : Resolve(rows, x) = rows[i].code,
                "a name shown for a type stands for another")
         \cup Complain(\A i \in 1..Len(rows) : e.rows[i].text = e.rows[i].str, "a type's text is not the one listed")

ShortBad(e, rows) ==
    IF e.how # "ok" THEN {<<"C20", "listing did not return">>}
    ELSE Complain(rows = Short(full), "the short listing is not the full one without the extra types")

\* What the program printed: rows of texts.
Texts(rows) == TLCEval([i \in 1..Len(rows) |-> <<rows[i].desc, rows[i].name, rows[i].three, rows[i].one>>])
PrintedBad(e) ==
    IF e.how # "ok" \/ e.rc # 0 THEN {<<"C20", "the listing command failed">>}
    ELSE Complain(e.texts = Texts(IF Flag(e.all) THEN full ELSE Short(full)), "the printed listing is not the listing")

\* Many lookups: names and codes (-1: refused).
LookupBad(e) ==
    IF e.how # "ok" THEN {<<"C20", "a lookup did not return">>}
    ELSE LET wrong == {i \in 1..Len(e.names) : e.codes[i] # (IF e.names[i] \in AllNames THEN Resolve(full, e.names[i]) ELSE -1)}
         IN Complain(wrong = {}, "a name does not resolve as listed: " \o ToJson({<<e.names[i], e.codes[i]>> : i \in wrong}))

Step(e) ==
    CASE e.ev = "full" -> \E rows \in {RowsOf(e.rows)} : full' = rows /\ \E b \in {FullBad(e, rows)} : bad' = b
      [] e.ev = "base" -> bad' = {} /\ \E rows \in {RowsOf(e.rows)} : full' = rows
      [] e.ev = "short" -> full' = full /\ \E rows \in {RowsOf(e.rows)} : \E b \in {ShortBad(e, rows)} : bad' = b
      [] e.ev = "printed" -> full' = full /\ \E b \in {PrintedBad(e)} : bad' = b
      [] e.ev = "lookup" -> full' = full /\ \E b \in {LookupBad(e)} : bad' = b
      [] e.ev = "died" -> full' = full /\ bad' = {<<"C20", "the operation " \o e.how>>}

TraceInit == l = 0 /\ bad = {} /\ full = <<>>
TraceNext == l < NumLines /\ l' = l + 1 /\ Step(Lines[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, full>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
