---------------------------- MODULE SymbolTable ----------------------------
(* The Super-Mon symbol table kept in NakedOS files 3 and 4.                *)
(* A table is a function from the slots in use to [addr, link, name]; link  *)
(* is a slot or -1.  On disk a slot is five bytes of file 3 (address, link  *)
(* address, sixth name byte) and five bytes of file 4 (name).               *)
EXTENDS Bytes, TLC

CONSTANT NumSlots              \* 819 on a real disk

Slots == 0..(NumSlots - 1)
NoLink == -1
BadLink == -2

----------------------------------------------------------------------------
(* Names: letters are 1..26 in five bits; a digit is 27..31 in five bits    *)
(* with a sixth bit telling 0-4 from 5-9; the name ends at a zero.          *)

NameBits(n) ==
    LET B[i \in 0..Len(n)] ==
          IF i = 0 THEN 0 ELSE B[i - 1] + (IF IsDigit(n[i]) THEN 6 ELSE 5)
    IN B[Len(n)]

\* The names that can be stored exactly.
Storable(n) ==
    /\ Len(n) \in 3..9
    /\ \A i \in 1..Len(n) : IsDigit(n[i]) \/ IsUpper(ToUpper(n[i]))
    /\ NameBits(n) <= 48

\* The bits of six bytes, least significant first, beyond the end zero.
BitAt(six, k) == IF k >= 48 THEN 0 ELSE Bit(six[(k \div 8) + 1], k % 8)
Five(six, k) == BitAt(six, k) + 2 * BitAt(six, k + 1) + 4 * BitAt(six, k + 2)
                + 8 * BitAt(six, k + 3) + 16 * BitAt(six, k + 4)

RECURSIVE DecodeFrom(_, _)
DecodeFrom(six, k) ==
    LET v == Five(six, k)
    IN IF k >= 48 \/ v = 0 THEN <<>>
       ELSE IF v < 27 THEN <<64 + v>> \o DecodeFrom(six, k + 5)
       ELSE <<48 + (v - 27) + 5 * BitAt(six, k + 5)>> \o DecodeFrom(six, k + 6)

DecodeName(six) == DecodeFrom(six, 0)

\* The inverse, as bits, for checking that the code is uniquely decodable.
CodeBits(c) ==
    LET u == ToUpper(c)
        v == IF IsDigit(u) THEN 27 + ((u - 48) % 5) ELSE u - 64
    IN [i \in 1..5 |-> Bit(v, i - 1)] \o (IF IsDigit(u) THEN <<(u - 48) \div 5>> ELSE <<>>)

EncodeBits(n) == Concat([i \in 1..Len(n) |-> CodeBits(n[i])])
EncodeName(n) ==
    LET b == EncodeBits(n)
        bb(k) == IF k <= Len(b) THEN b[k] ELSE 0
    IN [j \in 1..6 |->
          LET o == 8 * (j - 1)
          IN bb(o+1) + 2*bb(o+2) + 4*bb(o+3) + 8*bb(o+4)
             + 16*bb(o+5) + 32*bb(o+6) + 64*bb(o+7) + 128*bb(o+8)]

----------------------------------------------------------------------------
(* Slots as stored.                                                         *)

\* a: the five bytes in file 3; b: the five bytes in file 4.
SlotOf(a, b) ==
    LET la == Word(a, 2)
        d == la - 53248                                 \* $D000
    IN [addr |-> Word(a, 0),
        link |-> IF la = 0 THEN NoLink
                 ELSE IF d < 0 \/ d % 5 # 0 \/ (d \div 5) \notin Slots THEN BadLink
                 ELSE d \div 5,
        name |-> DecodeName(b \o <<a[5]>>)]

Hash(addr) == XorByte(Lo(addr), Hi(addr)) % 128

----------------------------------------------------------------------------
(* Well-formedness, and the two operations.                                 *)

Linked(tab) == {i \in DOMAIN tab : tab[i].link # NoLink}

RECURSIVE Ends(_, _, _)
Ends(tab, i, fuel) ==
    IF fuel = 0 THEN FALSE
    ELSE IF tab[i].link = NoLink THEN TRUE
    ELSE Ends(tab, tab[i].link, fuel - 1)

LinksJoinLive(tab) ==
    \A i \in Linked(tab) : /\ tab[i].link \in DOMAIN tab
                           /\ Hash(tab[i].addr) = Hash(tab[tab[i].link].addr)
LinkedOnce(tab) ==
    Cardinality({tab[i].link : i \in Linked(tab)}) = Cardinality(Linked(tab))
NoCycle(tab) == \A i \in Linked(tab) : Ends(tab, i, Cardinality(DOMAIN tab) + 1)

WellFormed(tab) == LinksJoinLive(tab) /\ LinkedOnce(tab) /\ NoCycle(tab)

\* Stored names are upper case (nothing else can be stored).
SlotsNamed(tab, n) == LET u == Upper(n) IN {i \in DOMAIN tab : tab[i].name = u}

RECURSIVE Reaches(_, _, _, _)
Reaches(tab, i, j, fuel) ==
    IF i = j THEN TRUE
    ELSE IF fuel = 0 \/ i \notin DOMAIN tab \/ tab[i].link \notin DOMAIN tab THEN FALSE
    ELSE Reaches(tab, tab[i].link, j, fuel - 1)

\* Symbols that stay where they are and were chained stay chained.
ChainsKept(pre, post) == pre = post \/
    \A i \in Linked(pre) :
        LET j == pre[i].link
            stays(k) == /\ k \in DOMAIN pre /\ k \in DOMAIN post
                        /\ pre[k].name = post[k].name
                        /\ Hash(pre[k].addr) = Hash(post[k].addr)
            next == IF j \in DOMAIN pre /\ ~ stays(j) THEN pre[j].link ELSE j
        IN (/\ stays(i) /\ next # NoLink /\ stays(next))
             => Reaches(post, i, next, Cardinality(DOMAIN post))

Others(tab, n) == DOMAIN tab \ SlotsNamed(tab, n)

\* Every symbol not called n is where it was, under its name and address.
UnrelatedKept(pre, post, n) ==
    /\ Others(pre, n) = Others(post, n)
    /\ \A i \in Others(pre, n) : /\ pre[i].name = post[i].name
                                 /\ pre[i].addr = post[i].addr

\* Adding is refused only if there is no slot for the name.
TableFull(tab, n) == SlotsNamed(tab, n) = {} /\ DOMAIN tab = Slots

\* What a successful addition of name n for address a must lead to.  Tables
\* in which n already occurs more than once are outside the contract.
Added(pre, post, n, a) ==
    /\ UnrelatedKept(pre, post, n)
    /\ \E i \in SlotsNamed(post, n) : SlotsNamed(post, n) = {i} /\ post[i].addr = a

\* A symbol that is new in its hash class follows another symbol of the class.
LinkedIn(pre, post, n, a) ==
    \A i \in SlotsNamed(post, n) :
        LET class == {j \in DOMAIN post \ {i} : Hash(post[j].addr) = Hash(a)}
            wasInClass == \E j \in SlotsNamed(pre, n) : Hash(pre[j].addr) = Hash(a)
        IN (class # {} /\ ~ wasInClass)
             => \E j \in class : post[j].link = i \/ post[i].link = j

Removed(pre, post, n) ==
    /\ UnrelatedKept(pre, post, n)
    /\ SlotsNamed(post, n) = {}

----------------------------------------------------------------------------
(* A constructive version, structured as the code is: delete bridges the    *)
(* predecessor over the slot; add reuses the slot or takes the first empty  *)
(* one and appends to the first tail of the hash class.                     *)

Drop(tab, i) == TLCEval([j \in DOMAIN tab \ {i} |->
                   IF tab[j].link = i THEN [tab[j] EXCEPT !.link = tab[i].link] ELSE tab[j]])

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

DoDelete(tab, n) ==
    IF SlotsNamed(tab, n) = {} THEN tab ELSE Drop(tab, MinOf(SlotsNamed(tab, n)))

DoAdd(tab, n, a) ==
    LET S == SlotsNamed(tab, n)
        old == MinOf(S)
        base == IF S = {} THEN tab ELSE Drop(tab, old)
        pos == IF S = {} THEN MinOf(Slots \ DOMAIN tab) ELSE old
        tails == {j \in DOMAIN base : Hash(base[j].addr) = Hash(a) /\ base[j].link = NoLink}
        linked == IF tails = {} THEN base
                  ELSE TLCEval([base EXCEPT ![MinOf(tails)].link = pos])
    IN IF S # {} /\ Hash(tab[old].addr) = Hash(a)
       THEN [tab EXCEPT ![old].addr = a]
       ELSE [j \in DOMAIN linked \cup {pos} |->
               IF j = pos THEN [addr |-> a, link |-> NoLink, name |-> n] ELSE linked[j]]
=============================================================================
