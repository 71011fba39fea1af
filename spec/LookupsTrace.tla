--------------------------- MODULE LookupsTrace -----------------------------
(* C27: what the real code read and found.                                  *)
EXTENDS Lookups, TraceCommon

VARIABLES l, bad, tab      \* tab: the table last read
RealSlots == 819

C(cond, what) == IF cond THEN {} ELSE {<<"C27", what>>}

RawOf(list) ==
    LET at == {list[k][1] : k \in 1..Len(list)}
        f == TLCEval([k \in 1..Len(list) |-> [a |-> list[k][2], b |-> list[k][3]]])
        where == TLCEval([i \in at |-> CHOOSE k \in 1..Len(list) : list[k][1] = i])
    IN TLCEval([i \in at |-> f[where[i]]])
\* The slots got, as a table.
GotOf(list) ==
    LET at == {list[k][1] : k \in 1..Len(list)}
        where == TLCEval([i \in at |-> CHOOSE k \in 1..Len(list) : list[k][1] = i])
    IN TLCEval([i \in at |-> [addr |-> list[where[i]][2], link |-> list[where[i]][3], name |-> list[where[i]][4]]])

Shown(x) == <<x.addr, x.link, x.name>>
SymsOf(t, I) == LET q == Sorted(I) IN [k \in 1..Len(q) |-> Shown(t[q[k]])]

TableBad(e, t) ==
    IF e.n3 # 16 \/ e.n4 # 16 THEN C(Flag(e.err), "a table was read from files of the wrong size")
    ELSE UNION {
      C(Flag(e.same), "reading a table changed the image"),
      C(MustRefuse(t) => Flag(e.err), "a table with an impossible link was accepted"),
      C(Flag(e.err) => MayRefuse(t), "a good table was refused"),
      C(Flag(e.err) \/ (e.len = NumSlots /\ GotOf(e.got) = t), "a table was not read as it is")}

\* Names that cannot be stored may be refused; empty ones can.
AllStorable(t) == \A i \in DOMAIN t : t[i].name = <<>> \/ Storable(t[i].name)
WriteBad(e) ==
    UNION {C(AllStorable(tab) => ~ Flag(e.err), "a table was not written"),
           C(~ Flag(e.err) => Parsed(RawOf(e.raw)) = tab, "a table was not written as it is"),
           C(Flag(e.err) => Flag(e.same), "a refused table changed the image"),
           C(e.outside = 0, "writing a table changed other files")}

Result(q) == IF Flag(q[1]) THEN No ELSE Yes(q[2], q[3], q[4])
TextBad(q) ==
    UNION {C(Result(q.c) = Compound(tab, q.s), "an address or symbol was not understood as it should"),
           C(FilesOpen(q.s) \/ Result(q.f) = Files(tab, q.s), "a file name was not understood as it should"),
           C(q.s = <<>> \/ (IF FileNamed(tab, q.s) # 0 THEN ~ Flag(q.n[1]) /\ q.n[2] = FileNamed(tab, q.s)
                            ELSE Flag(q.n[1]) /\ Flag(q.n[3])), "the file of a name is not found, or found wrongly"),
           C(~ Flag(q.n[4]) /\ (~ Flag(q.n[1]) => ~ Flag(q.n[3])), "an error is of the wrong class"),
           C(q.s = <<>> \/ q.a = AddressOf(tab, q.s), "the address of a name is wrong")}
TextsBad(e) == UNION {TextBad(e.qs[k]) : k \in 1..Len(e.qs)}

AddressesBad(e) ==
    LET used == {tab[i].addr : i \in DOMAIN tab}
        q == Sorted(used)
    IN UNION {
      C(e.all = [k \in 1..Len(q) |-> <<q[k], SymsOf(tab, SlotsAt(tab, q[k]))>>], "the symbols by address are not those of the table"),
      C(\A k \in 1..Len(e.some) : e.some[k][2] = SymsOf(tab, SlotsAt(tab, e.some[k][1])), "the symbols of an address are not those of the table"),
      C(\A k \in 1..Len(e.names) : e.names[k][2] = ShortName(tab, e.names[k][1]) /\ e.names[k][3] = FullName(tab, e.names[k][1]),
        "a file is called by a wrong name")}

Files0(m) == {f \in {m[p] : p \in 1..Len(m)} : f \in 1..253}
DiffIs(d, S, v) == {<<d[k][1], d[k][2]>> : k \in 1..Len(d)} = {<<p, v>> : p \in S}
MapBad(e) ==
    LET m == e.map
        q == Sorted(Files0(m))
    IN UNION {
      C(e.first = FirstUnused(m), "the first unused file number is wrong"),
      C(e.free = FreeCount(m), "the number of free sectors is wrong"),
      C(Flag(e.verify) = Verified(m), "a good map was refused or a bad one accepted"),
      C(\A k \in 1..Len(e.files) : e.files[k][2] = Sorted(Owned(m, e.files[k][1])), "the sectors of a file are wrong"),
      C(e.by = [k \in 1..Len(q) |-> <<q[k], Sorted(Owned(m, q[k]))>>], "the sectors by file are wrong"),
      C(\A k \in 1..Len(e.owners) : e.owners[k][3] = OwnerAt(m, e.owners[k][1], e.owners[k][2]), "the owner of a sector is wrong"),
      C(\A k \in 1..Len(e.sets) :
          LET x == e.sets[k]
              p == 16 * x[1] + x[2] + 1
          IN IF CanSet(x[1], x[2], x[3])
             THEN ~ Flag(x[4]) /\ DiffIs(x[5], IF m[p] = x[3] THEN {} ELSE {p}, x[3])
             ELSE Flag(x[4]) /\ x[5] = <<>>, "giving a sector to a file did something else"),
      C(\A k \in 1..Len(e.del) : DiffIs(e.del[k][2], Owned(m, e.del[k][1]), 255), "deleting a file from the map did something else")}
SaveBad(e) == UNION {C(~ Flag(e.err) /\ e.stored = e.from /\ e.loaded = e.from, "a saved map is not the same map"),
                     C(e.outside = 0, "saving a map changed other bytes")}

VerifyBad(e) ==
    C(\A k \in 1..Len(e.spoils) :
        LET x == e.spoils[k]
        IN Flag(x[3]) = Verified([e.map EXCEPT ![x[1]] = x[2]]), "a good map was refused or a bad one accepted")

Judge(e, t) ==
    IF e.how # "ok" THEN {<<"C27", "the call did not return (" \o e.how \o ")">>}
    ELSE CASE e.ev = "table" -> TableBad(e, t)
           [] e.ev = "write" -> WriteBad(e)
           [] e.ev = "texts" -> TextsBad(e)
           [] e.ev = "addresses" -> AddressesBad(e)
           [] e.ev = "map" -> MapBad(e)
           [] e.ev = "verify" -> VerifyBad(e)
           [] e.ev = "save" -> SaveBad(e)

TraceInit == l = 0 /\ bad = {} /\ tab = <<>>
TraceNext ==
    /\ l < NumLines /\ l' = l + 1
    /\ \E e \in {Lines[l + 1]} :
         \E t \in {IF e.ev = "table" THEN Parsed(RawOf(e.raw)) ELSE tab} :
            tab' = t /\ \E b \in {Judge(e, t)} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad, tab>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
