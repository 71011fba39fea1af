------------------------------ MODULE Numbers -------------------------------
(* Addresses on the command line: what number a text spells, and what the   *)
(* commands do with it.  Texts are sequences of character codes.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Big == 65536                  \* any number that is too large
NaN == -1

Digit(ch) == IF ch \in 48..57 THEN ch - 48
             ELSE IF ch \in 97..102 THEN ch - 87
             ELSE IF ch \in 65..70 THEN ch - 55 ELSE 99
\* The base a letter after a leading zero stands for.
BaseOf(ch) == IF ch \in {120, 88} THEN 16 ELSE IF ch \in {111, 79} THEN 8 ELSE IF ch \in {98, 66} THEN 2 ELSE 0

Cap(n) == IF n > Big THEN Big ELSE n
RECURSIVE Sum(_, _, _, _)
Sum(s, i, base, n) ==
    IF i > Len(s) THEN n
    ELSE IF Digit(s[i]) >= base THEN NaN
    ELSE Sum(s, i + 1, base, Cap(n * base + Digit(s[i])))
\* The number a text spells: NaN if none, Big if larger than 65535.
Value(s) ==
    IF s = <<>> THEN NaN
    ELSE IF Len(s) > 2 /\ s[1] = 48 /\ BaseOf(s[2]) # 0 THEN Sum(s, 3, BaseOf(s[2]), 0)
    ELSE Sum(s, 1, 10, 0)
Good(s) == Value(s) \in 0..65535

\* Texts whose meaning is left open: decimal digits after a leading zero,
\* and underscores between digits.
LeftOpen(s) == \/ Len(s) > 1 /\ s[1] = 48 /\ Digit(s[2]) < 10
               \/ \E i \in 1..Len(s) : s[i] = 95

----------------------------------------------------------------------------
CN(cond, what) == IF cond THEN {} ELSE {<<"C25", what>>}

\* One run with a text for one option.  r: how, err, same (nothing written),
\* got: the address found in what was written (NaN if none).
\*   want: the address that has to be found, NaN if the number cannot be accepted
Refused(r) == CN(r.err, "a number that has to be refused was accepted") \cup CN(r.same, "a refused command wrote something")
Taken(r, want) == CN(~ r.err, "a number was refused") \cup (IF r.err THEN {} ELSE CN(r.got = want, "another number than the one given was used"))

Want(opt, v, base, n) ==
    CASE opt = "hello-start" -> IF v = 65535 THEN base ELSE IF v >= base THEN v ELSE NaN
      [] opt = "hello-address" -> IF v % 256 = 0 /\ v <= base THEN v ELSE NaN
      [] opt = "sd-start" -> IF v = 65535 THEN base ELSE IF v >= base /\ v < base + n THEN v ELSE NaN
      [] opt = "sd-address" -> IF v % 256 = 0 /\ v + n <= 49152 THEN v ELSE NaN
      [] opt = "put-address" -> 0
      [] opt = "location" -> IF v = base THEN 0 ELSE NaN

NumberBad(opt, s, base, n, r) ==
    IF r.how # "ok" THEN {<<"C25", "the command did not return (" \o r.how \o ")">>}
    ELSE IF LeftOpen(s) THEN {}
    ELSE IF ~ Good(s) THEN Refused(r)
    ELSE LET w == Want(opt, Value(s), base, n)
         IN IF w # NaN THEN Taken(r, w) ELSE IF opt = "location" THEN {} ELSE Refused(r)
=============================================================================
