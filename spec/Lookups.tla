------------------------------ MODULE Lookups -------------------------------
(* C27: what a Super-Mon symbol table and a NakedOS sector map say when they *)
(* are read and searched.  A table in memory is what SymbolTable calls a    *)
(* table; in an image it is a function from slots to [a, b], the five bytes *)
(* in file 3 and the five in file 4 (all zero where not given).             *)
EXTENDS SymbolTable

(* Reading a table.                                                         *)

Empty == [addr |-> 0, link |-> NoLink, name |-> <<>>]
Parsed(raw) == TLCEval([i \in {j \in DOMAIN raw : Word(raw[j].a, 0) # 0} |-> SlotOf(raw[i].a, raw[i].b)])

\* Links that cannot be: not the place of a slot, of the symbol itself, or of a
\* symbol of another hash class.  A link to an empty slot is left open.
ImpossibleLink(tab, i) ==
    LET j == tab[i].link
    IN \/ j = BadLink
       \/ j = i
       \/ j \in DOMAIN tab /\ Hash(tab[i].addr) # Hash(tab[j].addr)
OpenLink(tab, i) == tab[i].link \in Slots /\ tab[i].link \notin DOMAIN tab
MustRefuse(tab) == \E i \in DOMAIN tab : ImpossibleLink(tab, i)
MayRefuse(tab) == \E i \in DOMAIN tab : ImpossibleLink(tab, i) \/ OpenLink(tab, i)

(* Looking things up.                                                       *)

FirstNamed(tab, n) == LET I == SlotsNamed(tab, n) IN IF I = {} THEN -1 ELSE MinOf(I)
AddressOf(tab, n) == LET i == FirstNamed(tab, n) IN IF i = -1 THEN 0 ELSE tab[i].addr
SlotsAt(tab, addr) == {i \in DOMAIN tab : tab[i].addr = addr}

FileAt(addr) == IF addr \in 57089..57341 THEN addr - 57088 ELSE 0
FileNumber(n) == LET v == HexNumber(n) IN IF FileAt(v) # 0 THEN FileAt(v) ELSE IF v \in 1..253 THEN v ELSE 0
FileNamed(tab, n) == IF FileNumber(n) # 0 THEN FileNumber(n) ELSE FileAt(AddressOf(tab, n))

(* Compound names.  Results: ok, two numbers, and the name.                 *)

Colons(n) == Occurrences(n, 58)
LeftOf(n) == SubSeq(n, 1, MinOf(Colons(n)) - 1)
RightOf(n) == SubSeq(n, MinOf(Colons(n)) + 1, Len(n))
No == [ok |-> FALSE, x |-> 0, y |-> 0, name |-> <<>>]
Yes(x, y, n) == [ok |-> TRUE, x |-> x, y |-> y, name |-> Upper(n)]

\* XXXX, NAME or XXXX:NAME: the address, the name's address, the name.
Compound(tab, n) ==
    IF n = <<>> THEN No
    ELSE IF Colons(n) = {}
    THEN IF AddressOf(tab, n) # 0 THEN Yes(0, AddressOf(tab, n), n)
         ELSE IF HexNumber(n) # -1 THEN Yes(HexNumber(n), 0, <<>>)
         ELSE IF Storable(n) THEN Yes(0, 0, n)
         ELSE No
    ELSE IF Cardinality(Colons(n)) > 1 THEN No
    ELSE IF HexNumber(LeftOf(n)) = -1 \/ ~ Storable(RightOf(n)) THEN No
    ELSE Yes(HexNumber(LeftOf(n)), AddressOf(tab, RightOf(n)), RightOf(n))

\* DFxx, NAME or DFxx:NAME: the file before the colon (or the one found), the
\* file of the name, the name.
Files(tab, n) ==
    IF Colons(n) = {}
    THEN IF FileNumber(n) # 0 THEN Yes(FileNumber(n), 0, <<>>)
         ELSE Yes(FileNamed(tab, n), FileNamed(tab, n), n)
    ELSE IF Cardinality(Colons(n)) > 1 THEN No
    ELSE IF FileNumber(LeftOf(n)) = 0 \/ FileNumber(RightOf(n)) # 0 THEN No
    ELSE Yes(FileNumber(LeftOf(n)), FileNamed(tab, RightOf(n)), RightOf(n))
\* What an empty name means is left open.
FilesOpen(n) == n = <<>> \/ n[Len(n)] = 58

\* The names of files.
FileTitle(tab, f) == LET I == SlotsAt(tab, 57088 + f) IN IF I = {} THEN <<>> ELSE tab[MinOf(I)].name
ShortName(tab, f) == IF SlotsAt(tab, 57088 + f) = {} THEN <<68, 70>> \o Hex2(f) ELSE FileTitle(tab, f)
FullName(tab, f) == <<68, 70>> \o Hex2(f) \o (IF SlotsAt(tab, 57088 + f) = {} THEN <<>> ELSE <<58>> \o FileTitle(tab, f))

(* Sector maps: sequences of 560 bytes.                                     *)

Owned(m, f) == {p \in 1..Len(m) : m[p] = f}
FreeCount(m) == Cardinality(Owned(m, 255))
FirstUnused(m) ==
    LET used == {m[p] : p \in 1..Len(m)}
        free == (1..253) \ used
    IN IF free = {} THEN 0 ELSE MinOf(free)
OwnerAt(m, t, s) == IF t > 34 \/ s > 15 THEN 0 ELSE m[16 * t + s + 1]
Verified(m) == (\A p \in 1..12 : m[p] = 254) /\ Owned(m, 0) = {}
CanSet(t, s, f) == t < 35 /\ s < 16 /\ f \in 1..253
=============================================================================
