----------------------------- MODULE MCNumbers ------------------------------
(* A scanner reads a text character by character, in bounded arithmetic; it *)
(* accepts exactly the texts that spell a number up to 65535, and finds     *)
(* that number.  The texts are printed as cases.                            *)
EXTENDS Numbers, Json

CONSTANTS Chars, MaxLen, GenLen, Gen

VARIABLES s, st, base, n
vars == <<s, st, base, n>>

SomeChars == {48, 49, 55, 57, 97, 70, 120, 88, 111, 98, 103, 45, 43, 32}
GenChars == {48, 49, 50, 56, 57, 98, 66, 102, 103, 120, 88, 111, 79, 45, 43, 32, 36, 46, 95}

Init == s = <<>> /\ st = "start" /\ base = 10 /\ n = 0
\* states: start, zero (just "0"), prefix (0x so far), digits, big, bad
Read(ch) ==
    LET d == Digit(ch)
        more(b) == IF d >= b THEN [st |-> "bad", base |-> b, n |-> 0]
                   ELSE IF n * b + d > 65535 THEN [st |-> "big", base |-> b, n |-> 0]
                   ELSE [st |-> "digits", base |-> b, n |-> n * b + d]
    IN CASE st = "start" -> IF ch = 48 THEN [st |-> "zero", base |-> 10, n |-> 0] ELSE more(10)
         [] st = "zero" -> IF BaseOf(ch) # 0 THEN [st |-> "prefix", base |-> BaseOf(ch), n |-> 0] ELSE more(10)
         [] st \in {"prefix", "digits"} -> more(base)
         [] st = "big" -> IF d >= base THEN [st |-> "bad", base |-> base, n |-> 0] ELSE [st |-> "big", base |-> base, n |-> 0]
         [] st = "bad" -> [st |-> "bad", base |-> base, n |-> 0]
Next == /\ Len(s) < MaxLen
        /\ \E ch \in Chars : \E r \in {Read(ch)} : s' = Append(s, ch) /\ st' = r.st /\ base' = r.base /\ n' = r.n
Spec == Init /\ [][Next]_vars

Agrees == /\ (st \in {"zero", "digits"}) = Good(s)
          /\ Good(s) => n = Value(s)
          /\ (st = "big") = (Value(s) = Big)

\* Every number can be given in every base, and is then that number.
RECURSIVE Spell(_, _)
Spell(v, b) == LET d == v % b
                   ch == IF d < 10 THEN 48 + d ELSE 87 + d
               IN IF v < b THEN <<ch>> ELSE Append(Spell(v \div b, b), ch)
Prefix(b) == IF b = 16 THEN <<48, 120>> ELSE IF b = 8 THEN <<48, 111>> ELSE IF b = 2 THEN <<48, 66>> ELSE <<>>
Telling == {0, 1, 7, 8, 9, 10, 15, 16, 99, 100, 255, 256, 257, 2048, 2049, 4095, 4096, 9999, 24576, 24577, 32767, 32768, 49151, 49152, 65279, 65280, 65534, 65535}
TooBig == {65536, 65537, 67584, 90112, 99999, 131072, 1000000, 16777216}
Bases == {2, 8, 10, 16}
ASSUME \A v \in Telling : \A b \in Bases : Value(Prefix(b) \o Spell(v, b)) = v
ASSUME \A v \in TooBig : \A b \in Bases : Value(Prefix(b) \o Spell(v, b)) = Big

RECURSIVE Texts(_)
Texts(k) == IF k = 0 THEN {<<>>} ELSE {Append(t, ch) : t \in Texts(k - 1), ch \in GenChars}
AllTexts == (UNION {Texts(k) : k \in 0..GenLen})
            \cup {Prefix(b) \o Spell(v, b) : v \in Telling \cup TooBig, b \in Bases}
            \cup {Prefix(b) \o <<48, 48, 48>> \o Spell(v, b) : v \in {0, 24576, 65535, 65536}, b \in {2, 8, 16}}
Shown == {t \in AllTexts : ~ LeftOpen(t)}
ASSUME Gen => \A t \in Shown : PrintT("NUMBER " \o ToJson([s |-> t, v |-> Value(t)]))
=============================================================================
