------------------------------ MODULE Validity ------------------------------
(* What is wrong with a ProDOS directory block: Beneath Apple ProDOS, ch. 4 *)
(* and the ProDOS 8 Technical Reference, B.2.  A block is the sequence of   *)
(* its 512 bytes.  kind: "volkey", "subkey" (first blocks of a volume       *)
(* directory and a subdirectory), "vol", "sub" (later ones).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"volkey", "subkey", "vol", "sub"}
Key(kind) == kind \in {"volkey", "subkey"}

At(b, o) == b[o + 1]
\* Entries (39 bytes each from byte 4; in a first block the header is the
\* first of them).
EntryPlace(kind, k) == 4 + 39 * (IF Key(kind) THEN k ELSE k - 1)
EntriesOf(kind) == 1..(IF Key(kind) THEN 12 ELSE 13)
HeaderPlace == 4

\* A time: two bytes of date, the minute, the hour.
TimeOk(b, o) == At(b, o + 2) < 60 /\ At(b, o + 3) < 24
Active(b, p) == At(b, p) >= 16

If(cond, what) == IF cond THEN {what} ELSE {}

\* The fields that hold what they must not.
Violations(kind, b) ==
    If(Key(kind) /\ (At(b, 0) # 0 \/ At(b, 1) # 0), <<"prev">>)
    \cup If(At(b, 511) # 0, <<"extra">>)
    \cup If(kind = "subkey" /\ At(b, HeaderPlace + 16) # 117, <<"75">>)
    \cup If(Key(kind) /\ ~ TimeOk(b, HeaderPlace + 24), <<"header">>)
    \cup UNION {LET p == EntryPlace(kind, k)
                IN IF ~ Active(b, p) THEN {}
                   ELSE If(~ TimeOk(b, p + 24), <<"created", k>>) \cup If(~ TimeOk(b, p + 33), <<"modified", k>>)
                : k \in EntriesOf(kind)}

\* Entries not in use may hold anything; whether times there are looked at is open.
LeftOpen(kind, b) ==
    \E k \in EntriesOf(kind) : LET p == EntryPlace(kind, k)
                               IN ~ Active(b, p) /\ (~ TimeOk(b, p + 24) \/ ~ TimeOk(b, p + 33))

CV(cond, what) == IF cond THEN {} ELSE {<<"C26", what>>}

\* n: how many complaints the program has.
ValidityBad(kind, b, n) ==
    \E v \in {Cardinality(Violations(kind, b))} :
        /\ n < v \/ (n > 0 /\ v = 0 /\ ~ LeftOpen(kind, b))
Judgement(kind, b, n) ==
    IF ~ ValidityBad(kind, b, n) THEN {}
    ELSE IF Violations(kind, b) = {} THEN {<<"C26", "a good block was complained about">>}
    ELSE {<<"C26", "not every bad field was complained about">>}
=============================================================================
