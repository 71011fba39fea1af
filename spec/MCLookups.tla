----------------------------- MODULE MCLookups ------------------------------
(* A text typed for an address or a symbol is read character by character   *)
(* by a machine with bounded memory (is it still a number, which; could it  *)
(* still be stored; which of the known names could it still be).  What the  *)
(* machine answers at each moment is what Lookups says the text means.      *)
EXTENDS Lookups, Json

CONSTANTS Chars, MaxLen, GenLen, Gen

VARIABLES tab, s,
          colons,          \* colons read (at most 2 are counted)
          num, left,       \* the value of the part being read (-1: none; -2: no number), and of the one before
          len, bits, odd,  \* length, packed size, and whether some character cannot be stored, of the part being read
          alive            \* the slots whose names begin with the part being read
vars == <<tab, s, colons, num, left, len, bits, odd, alive>>

McSlots == 6
TextChars == {48, 57, 68, 102, 71, 58, 37}
GenChars == {48, 49, 68, 70, 102, 103, 90, 58, 37}

Sym(a, n) == [addr |-> a, link |-> NoLink, name |-> n]
Tables == { <<>>,
            [i \in {0, 2, 3, 5} |->
                CASE i = 0 -> Sym(57090, <<71, 71, 71>>)            \* GGG
                  [] i = 2 -> Sym(4660, <<68, 68, 68>>)             \* DDD, also a number
                  [] i = 3 -> Sym(57341, <<68, 57, 71, 48>>)        \* D9G0
                  [] i = 5 -> Sym(57091, <<71, 71, 71>>)],          \* GGG again
            [i \in {1, 4} |-> IF i = 1 THEN Sym(57342, <<71, 57, 71>>) ELSE Sym(1, <<71, 71>>)] }

Fresh(t) == [num |-> -1, len |-> 0, bits |-> 0, odd |-> FALSE, alive |-> DOMAIN t]
Init == /\ tab \in Tables /\ s = <<>> /\ colons = 0 /\ left = -1
        /\ num = -1 /\ len = 0 /\ bits = 0 /\ odd = FALSE /\ alive = DOMAIN tab

Type(ch) ==
    /\ s' = Append(s, ch) /\ UNCHANGED tab
    /\ IF ch = 58
       THEN /\ colons' = Min2(2, colons + 1) /\ left' = num
            /\ num' = -1 /\ len' = 0 /\ bits' = 0 /\ odd' = FALSE /\ alive' = DOMAIN tab
       ELSE /\ UNCHANGED <<colons, left>>
            /\ num' = IF num = -2 \/ ~ IsHexDigit(ch) THEN -2
                      ELSE IF num = -1 THEN HexVal(ch)
                      ELSE IF num > 4095 THEN -2 ELSE 16 * num + HexVal(ch)
            /\ len' = len + 1
            /\ bits' = bits + (IF IsDigit(ch) THEN 6 ELSE 5)
            /\ odd' = (odd \/ ~ (IsDigit(ch) \/ IsUpper(ToUpper(ch))))
            /\ alive' = {i \in alive : Len(tab[i].name) > len /\ tab[i].name[len + 1] = ToUpper(ch)}
Next == Len(s) < MaxLen /\ \E ch \in Chars : Type(ch)
Spec == Init /\ [][Next]_vars

Here == {i \in alive : Len(tab[i].name) = len}
Known == IF Here = {} THEN 0 ELSE tab[MinOf(Here)].addr
Packs == len \in 3..9 /\ bits <= 48 /\ ~ odd
PartNow == IF colons = 0 THEN s ELSE SubSeq(s, Len(s) - len + 1, Len(s))
InRange(v) == IF v \in 57089..57341 THEN v - 57088 ELSE IF v \in 1..253 THEN v ELSE 0
FileOf(v) == IF v \in 57089..57341 THEN v - 57088 ELSE 0

Answer ==
    CASE s = <<>> \/ colons > 1 -> No
      [] colons = 0 /\ Known # 0 -> Yes(0, Known, s)
      [] colons = 0 /\ Known = 0 /\ num >= 0 -> Yes(num, 0, <<>>)
      [] colons = 0 /\ Known = 0 /\ num < 0 -> IF Packs THEN Yes(0, 0, s) ELSE No
      [] colons = 1 -> IF left < 0 \/ ~ Packs THEN No ELSE Yes(left, Known, PartNow)
FileAnswer ==
    CASE colons > 1 -> No
      [] colons = 0 -> IF InRange(num) # 0 THEN Yes(InRange(num), 0, <<>>) ELSE Yes(FileOf(Known), FileOf(Known), s)
      [] colons = 1 -> IF InRange(left) = 0 \/ InRange(num) # 0 THEN No ELSE Yes(InRange(left), FileOf(Known), PartNow)

Agrees == Answer = Compound(tab, s) /\ (~ FilesOpen(s) => FileAnswer = Files(tab, s))
\* A file's full name leads to it, and so does its short name when it is the
\* only one of that name and not itself a number.
NamesLead ==
    s = <<>> => \A f \in 1..253 :
        /\ Files(tab, FullName(tab, f)).ok =>
              Files(tab, FullName(tab, f)).x = f
        /\ LET n == ShortName(tab, f)
           IN (Cardinality(SlotsNamed(tab, n)) <= 1 /\ (FileNumber(n) \in {0, f})) => FileNamed(tab, n) = f

RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {<<>>} ELSE {Append(t, ch) : t \in Texts(k - 1), ch \in GenChars}
Parts == { <<>>, <<48>>, <<49>>, <<70, 68>>, <<102, 101>>, <<68, 70, 48, 48>>, <<68, 70, 48, 49>>, <<100, 102, 70, 68>>,
           <<68, 70, 70, 69>>, <<68, 70, 70, 70>>, <<70, 70, 70, 70>>, <<49, 48, 48, 48, 48>>, <<48, 48, 48, 48, 48, 49>>, <<48, 48, 48, 48, 68, 70, 49, 48>>,
           <<71, 71, 71>>, <<103, 71, 103>>, <<68, 68, 68>>, <<68, 57, 71, 48>>, <<71, 71>>, <<71, 57, 71>>,
           <<65, 66, 67, 68, 69, 70, 71, 72, 73>>, <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74>>,
           <<57, 57, 57, 57, 57, 57, 57, 57>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<65, 57, 57, 57, 57, 57, 57, 57, 57>>,
           <<65, 65, 65, 65, 57, 57, 57, 57, 57>>, <<65, 65, 65, 65, 65, 65, 57, 57, 57>>, <<65, 65, 65, 65, 65, 57, 57, 57, 57>>,
           <<65, 45, 66>>, <<36, 49, 50>>, <<48, 120, 49, 50>>, <<45, 49>>, <<43, 49>>, <<65, 66, 32>>, <<32, 65, 66>>, <<65, 195, 137>>, <<65, 66, 0>>, <<49, 95, 48>> }
AllTexts == (UNION {Texts(k) : k \in 0..GenLen})
            \cup Parts \cup {p \o <<58>> \o q : p \in Parts, q \in Parts}
            \cup {p \o <<58>> \o q \o <<58>> : p \in {<<49>>, <<>>}, q \in {<<71, 71, 71>>, <<>>}}
            \cup {<<49, 58>> \o p \o <<58>> \o q : p \in {<<71, 71, 71>>, <<>>}, q \in {<<71, 71, 71>>, <<50>>}}
ASSUME Gen => \A t \in AllTexts : PrintT("TEXT " \o ToJson([s |-> t]))
=============================================================================
