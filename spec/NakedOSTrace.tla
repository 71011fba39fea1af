---------------------------- MODULE NakedOSTrace ----------------------------
(* Checks a recorded history of the real NakedOS code, line by line, against *)
(* NakedOS.tla.  The disk after each operation is the one recorded (changed  *)
(* sectors and symbol-table slots); what each file should hold is the        *)
(* specification's own account of the history.                               *)
EXTENDS NakedOS, TraceCommon

AskedNow == {Prop}
RealFileNums == 1..253
RealFileOf(a) == IF a \in 57089..57341 THEN a - 57088 ELSE 0

\* off: an operation outside the contract was made; nothing is promised any more.
VARIABLES l, S, want, saved, bad, off
vars == <<l, S, want, saved, bad, off>>

Nothing == [own |-> <<>>, sec |-> <<>>, con |-> <<>>, head |-> 0, tab |-> <<>>, st |-> FALSE]

TraceInit == l = 0 /\ S = Nothing /\ want = <<>> /\ saved = <<<<>>, <<>>>> /\ bad = {} /\ off = FALSE

\* JSON objects for the slots: [slot, five bytes, five bytes]
SlotFun(ss) == [i \in {ss[k][1] : k \in 1..Len(ss)} |->
                  LET k == CHOOSE k \in 1..Len(ss) : ss[k][1] = i IN SlotOf(ss[k][2], ss[k][3])]

\* f with the pairs of ps applied, one by one.
RECURSIVE PatchFrom(_, _, _)
PatchFrom(f, ps, k) ==
    IF k > Len(ps) THEN f ELSE PatchFrom([f EXCEPT ![ps[k][1]] = ps[k][2]], ps, k + 1)
Patch(f, ps) == IF ps = <<>> THEN f ELSE PatchFrom(f, ps, 1)

\* The sectors of each owner after the changes of owner in ps.
PatchSec(sec, own, ps) ==
    IF ps = <<>> THEN sec
    ELSE LET moved == {ps[k][1] : k \in 1..Len(ps)}
             gone(f) == {p \in moved : own[p] = f}
             come(f) == {ps[k][1] : k \in {j \in 1..Len(ps) : ps[j][2] = f}}
             owners == {own[p] : p \in moved} \cup {ps[k][2] : k \in 1..Len(ps)}
             had(f) == IF f \in DOMAIN sec THEN sec[f] ELSE {}
             ch == TLCEval([f \in owners |-> (had(f) \ gone(f)) \cup come(f)])
         IN TLCEval([f \in {g \in DOMAIN sec \cup owners : g \notin owners \/ ch[g] # {}} |->
                       IF f \in owners THEN ch[f] ELSE sec[f]])

PatchTab(t, e) ==
    IF e.dslots = <<>> THEN t
    ELSE LET ch == TLCEval(SlotFun(e.dslots))
             live == {i \in DOMAIN ch : ch[i].addr # 0}
         IN TLCEval([i \in (DOMAIN t \ DOMAIN ch) \cup live |-> IF i \in live THEN ch[i] ELSE t[i]])

\* The disk after the line.
After(e) == [own |-> Patch(S.own, e.down), sec |-> PatchSec(S.sec, S.own, e.down), con |-> Patch(S.con, e.dcon), head |-> e.head,
             tab |-> PatchTab(S.tab, e), st |-> Flag(e.st)]

FirstState(e) ==
    [own |-> e.own, sec |-> SecOf(e.own), con |-> e.con, head |-> e.head,
     \* sinv: for each slot its place in dslots, 0 if it is not in use
     tab |-> TLCEval([i \in {j \in Slots : e.sinv[j + 1] # 0} |->
                        SlotOf(e.dslots[e.sinv[i + 1]][2], e.dslots[e.sinv[i + 1]][3])]),
     st |-> Flag(e.st)]

Contents(s) == TLCEval([f \in UsedNums(s) |-> ContentOf(s, f)])

OpOf(e) == [name |-> e.name, n |-> e.n, dlen |-> e.dlen, binary |-> Flag(e.binary),
            ow |-> Flag(e.ow), data |-> e.data]
ResOf(e) == [how |-> e.how, err |-> Flag(e.err), kind |-> e.ek, existed |-> Flag(e.existed)]

\* The symbol-table files follow the table, not the puts.
TabFiles(T, w) ==
    IF ~ T.st THEN w
    ELSE [g \in DOMAIN w \cup {Sym1, Sym2} |-> IF g \in {Sym1, Sym2} THEN ContentOf(T, g) ELSE w[g]]

WantAfterPut(T, e) ==
    LET op == OpOf(e)
        f == FileWritten(S, T, op)
    IN IF e.how = "ok" /\ ~ Flag(e.err) /\ f # 0
       THEN TLCEval(TabFiles(T, [g \in DOMAIN want \cup {f} |-> IF g = f THEN op.data ELSE want[g]]))
       ELSE want

WantAfterDel(T, e) ==
    LET f == Resolve(S, e.name)
    IN IF e.how = "ok" /\ ~ Flag(e.err) /\ f # 0
       THEN TLCEval(TabFiles(T, [g \in DOMAIN want \ {f} |-> want[g]]))
       ELSE want

Probes(T, w, e) ==
    UNION {GetBad(T, w, [q |-> g.q, how |-> g.how, err |-> Flag(g.err), data |-> g.data, n |-> g.n])
             : g \in {e.gets[k] : k \in 1..Len(e.gets)}}
    \cup UNION {CatalogBad(T, [how |-> c.how, err |-> Flag(c.err), list |-> c.list])
             : c \in {e.cats[k] : k \in 1..Len(e.cats)}}

\* Symbol-table operations made directly.
SymBad(T, e) ==
    LET res == ResOf(e)
        full == TableFull(S.tab, e.name)
        refuse == e.addr = 0 \/ full
        C9(cond, what) == Complain({"C09"}, cond, what)
    IN IF res.how # "ok" THEN {<<"C09", "a symbol-table operation did not return (" \o res.how \o ")">>}
       ELSE IF e.ev = "sadd"
       THEN IF refuse THEN UNION {C9(res.err, "adding a symbol succeeded where it had to fail"),
                                  C9(TableSame(S, T), "a failed addition changed the table")}
            ELSE UNION {C9(~ res.err, "adding a symbol failed"),
                        C9(Added(S.tab, T.tab, e.name, e.addr), "the table does not hold exactly the symbols it should"),
                        C9(LinkedIn(S.tab, T.tab, e.name, e.addr), "a new symbol is not linked into its hash class"),
                        TableBad(S, T)}
       ELSE UNION {C9(~ res.err /\ res.existed = (SlotsNamed(S.tab, e.name) # {}), "removing a symbol misreported whether it existed"),
                   C9(Removed(S.tab, T.tab, e.name), "the table does not hold exactly the symbols it should"),
                   TableBad(S, T)}

\* What the code reads back from the written table: [slot, addr, link, name].
ReadBackBad(T, e) ==
    IF "rb" \notin DOMAIN e THEN {}
    ELSE UNION {Complain({"C09"}, ~ Flag(e.rberr), "the written symbol table cannot be read back"),
          Complain({"C09"}, Flag(e.rberr) \/
             /\ {e.rb[k][1] : k \in 1..Len(e.rb)} = DOMAIN T.tab
             /\ \A k \in 1..Len(e.rb) :
                  T.tab[e.rb[k][1]] = [addr |-> e.rb[k][2], link |-> e.rb[k][3], name |-> e.rb[k][4]],
             "the symbol table reads back differently")}

Died(e) == {<<p, "the operation " \o e.how>> : p \in {"C04", "C05", "C06", "C07", "C08", "C09"}}

Step(e, T, w, b) == /\ S' = T /\ want' = w /\ bad' = b
                    /\ off' = FALSE /\ UNCHANGED saved

InContract(e) ==
    CASE e.ev = "put" -> PutInContract(S, OpOf(e))
      [] e.ev = "del" -> DeleteInContract(S, e.name)
      [] e.ev \in {"sadd", "sdel"} -> Cardinality(SlotsNamed(S.tab, e.name)) <= 1
      [] OTHER -> TRUE

\* One recorded line; T, w: disk and expectation after it.
JudgeBad(e, T, w) ==
    Probes(T, w, e) \cup
    (CASE e.ev = "put" -> PutBad(S, T, OpOf(e), ResOf(e))
       [] e.ev = "del" -> DeleteBad(S, T, e.name, ResOf(e))
       [] e.ev = "reopen" -> ReopenBad(S, T, ResOf(e))
       [] e.ev \in {"sadd", "sdel"} -> SymBad(T, e)
       [] OTHER -> {}) \cup ReadBackBad(T, e)

NextOn(e) ==
    CASE e.ev = "init" ->
           \E T \in {FirstState(e)} : \E w \in {Contents(T)} : Step(e, T, w, Probes(T, w, e))
      [] e.ev = "save" -> saved' = [saved EXCEPT ![e.level] = <<S, want>>] /\ bad' = {} /\ UNCHANGED <<S, want, off>>
      [] e.ev = "restore" -> S' = saved[e.level][1] /\ want' = saved[e.level][2] /\ bad' = {} /\ off' = FALSE /\ UNCHANGED saved
      [] e.ev = "died" -> bad' = Died(e) /\ UNCHANGED <<S, want, saved, off>>
      [] OTHER ->
           IF off \/ ~ InContract(e)
           THEN off' = TRUE /\ bad' = {} /\ UNCHANGED <<S, want, saved>>
           ELSE \E T \in {After(e)} :
             \E w \in {CASE e.ev = "put" -> WantAfterPut(T, e)
                         [] e.ev = "del" -> WantAfterDel(T, e)
                         [] e.ev = "reopen" -> want
                         [] OTHER -> TLCEval(TabFiles(T, want))} :
               \E b \in {JudgeBad(e, T, w)} : Step(e, T, w, b)

TraceNext == l < NumLines /\ l' = l + 1 /\ NextOn(Lines[l + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* One state per line: the line number tells states apart.
LineView == l

Conforms == Verdict(l, bad)
=============================================================================
