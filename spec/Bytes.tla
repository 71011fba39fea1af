------------------------------- MODULE Bytes -------------------------------
(* Bytes, words and text, as sequences of integers 0..255.  TLC cannot look  *)
(* inside strings, so all text (file names, listings) is a sequence of codes *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
LOCAL INSTANCE SequencesExt

Byte == 0..255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

CeilDiv(a, b) == (a + b - 1) \div b

\* Bytes i, i+1 (0-based) of b as a little-endian 16-bit word.
At(b, i) == b[i + 1]
Word(b, i) == b[i + 1] + 256 * b[i + 2]

\* n bytes of b from 0-based offset i.
Slice(b, i, n) == SubSeq(b, i + 1, i + n)

Lo(w) == w % 256
Hi(w) == (w \div 256) % 256

Zeros(n) == [i \in 1..n |-> 0]

\* Bit k (0 = least significant) of byte or word x.
Bit(x, k) == (x \div (2 ^ k)) % 2

XorByte(a, b) == a ^^ b

IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsDigit(c) == c \in 48..57
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(s) == TLCEval([i \in 1..Len(s) |-> ToUpper(s[i])])
Lower(s) == TLCEval([i \in 1..Len(s) |-> ToLower(s[i])])

SameIgnoringCase(a, b) == Upper(a) = Upper(b)

IsHexDigit(c) == IsDigit(ToUpper(c)) \/ ToUpper(c) \in 65..70
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE ToUpper(c) - 55

\* All occurrences of code c in s.
Occurrences(s, c) == {i \in 1..Len(s) : s[i] = c}

LastOccurrence(s, c) ==
    LET O == Occurrences(s, c)
    IN IF O = {} THEN 0 ELSE CHOOSE i \in O : \A j \in O : j <= i

\* The value of a string of hexadecimal digits, or -1 if it is not one or
\* does not fit in 16 bits.
RECURSIVE HexFrom(_, _, _)
HexFrom(s, k, acc) ==
    IF k > Len(s) THEN acc
    ELSE IF ~ IsHexDigit(s[k]) \/ acc > 4095 THEN -1
    ELSE HexFrom(s, k + 1, acc * 16 + HexVal(s[k]))

HexNumber(s) == IF s = <<>> THEN -1 ELSE HexFrom(s, 1, 0)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex2(n) == <<HexDigit(n \div 16), HexDigit(n % 16)>>

\* The decimal digits of a natural number.
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

\* The part of a file name after its last dot, dot included, lower-cased;
\* empty if there is none.  Directories end at "/".
Extension(name) ==
    LET d == LastOccurrence(name, 46)
        s == LastOccurrence(name, 47)
    IN IF d = 0 \/ d < s THEN <<>> ELSE Lower(SubSeq(name, d, Len(name)))

ExtDsk == <<46, 100, 115, 107>>
ExtDo  == <<46, 100, 111>>
ExtPo  == <<46, 112, 111>>
ExtHdv == <<46, 104, 100, 118>>

\* Concatenation of a sequence of sequences.
RECURSIVE ConcatRange(_, _, _)
ConcatRange(ss, a, b) ==
    IF a > b THEN <<>>
    ELSE IF a = b THEN ss[a]
    ELSE LET m == (a + b) \div 2 IN ConcatRange(ss, a, m) \o ConcatRange(ss, m + 1, b)
Concat(ss) == ConcatRange(ss, 1, Len(ss))

\* A set of numbers in ascending order.
Sorted(X) == SetToSortSeq(X, LAMBDA a, b : a < b)

\* The elements of s at the places in K, in order.
Pick(s, K) == LET q == Sorted(K) IN TLCEval([i \in 1..Len(q) |-> s[q[i]]])
=============================================================================
