------------------------------- MODULE Hello --------------------------------
(* The program that mkhello installs as file 1, FHELLO, on a NakedOS disk,  *)
(* and what running it does: a call of NakedOS, with its arguments in the   *)
(* code after it, and a jump into what was loaded.                          *)
EXTENDS NakedOS

NakedOSEntry == 832          \* $0340
ReadFile == <<109, 1, 220>>  \* ADC $DC01: the read-file call
BitAbs == 44
Hello == 1
HelloName == <<70, 72, 69, 76, 76, 79>>                              \* FHELLO
HelloTarget == <<68, 70, 48, 49, 58>> \o HelloName                   \* DF01:FHELLO

Program(f, a, s) ==
    <<32, Lo(NakedOSEntry), Hi(NakedOSEntry)>> \o ReadFile
    \o <<BitAbs, f, 223>> \o <<BitAbs, Lo(a), Hi(a)>> \o <<216, 76, Lo(s), Hi(s)>>

\* Running a program from its start: loads [file, addr] and where it ends up.
StartRun == [pc |-> 0, state |-> "run", loads |-> <<>>, jump |-> 0]
Fetch(code, i) == IF i < Len(code) THEN code[i + 1] ELSE 0
StepRun(code, m) ==
    LET op == Fetch(code, m.pc)
        w(i) == Fetch(code, i) + 256 * Fetch(code, i + 1)
        p == m.pc + 3
    IN IF m.state # "run" THEN m
       ELSE IF op \in {216, 234} THEN [m EXCEPT !.pc = @ + 1]                       \* CLD, NOP
       ELSE IF op = 76 THEN [m EXCEPT !.state = "done", !.jump = w(m.pc + 1)]         \* JMP
       ELSE IF /\ op = 32 /\ w(m.pc + 1) = NakedOSEntry                              \* JSR NAKEDOS
               /\ <<Fetch(code, p), Fetch(code, p + 1), Fetch(code, p + 2)>> = ReadFile
               /\ Fetch(code, p + 3) = BitAbs /\ Fetch(code, p + 6) = BitAbs
               /\ w(p + 4) \in 57089..57341
            THEN [m EXCEPT !.pc = @ + 12, !.loads = Append(@, [file |-> w(p + 4) - 57088, addr |-> w(p + 7)])]
       ELSE [m EXCEPT !.state = "stuck"]
RECURSIVE RunFor(_, _, _)
RunFor(code, m, k) == IF k = 0 \/ m.state # "run" THEN m ELSE RunFor(code, StepRun(code, m), k - 1)
Meaning(code) == RunFor(code, StartRun, 64)

Runs(code, f, a, s) ==
    LET m == Meaning(code) IN m.state = "done" /\ m.loads = <<[file |-> f, addr |-> a]>> /\ m.jump = s

----------------------------------------------------------------------------
\* The file a reference stands for: number, name or number:name; 0 if none.
Referred(S, nm) ==
    LET C == Occurrences(nm, Colon)
        c == CHOOSE i \in C : TRUE
    IN IF C = {} THEN Resolve(S, nm)
       ELSE IF Cardinality(C) > 1 THEN 0
       ELSE IF NumberOf(SubSeq(nm, c + 1, Len(nm))) # 0 THEN 0
       ELSE NumberOf(SubSeq(nm, 1, c - 1))

\* What follows the colon has to be something that can be a name at all.
RefInContract(nm) ==
    LET C == Occurrences(nm, Colon)
        c == CHOOSE i \in C : TRUE
        right == SubSeq(nm, c + 1, Len(nm))
    IN nm # <<>> /\ (Cardinality(C) = 1 => Storable(right) \/ NumberOf(right) # 0)

HelloStart(a, s) == IF s = 65535 THEN a ELSE s
HelloOp(data) == [name |-> HelloTarget, n |-> 16, dlen |-> 16, binary |-> TRUE, ow |-> TRUE, data |-> data]

ArgumentsOK(S, nm, a, s) == a % 256 = 0 /\ HelloStart(a, s) >= a /\ Referred(S, nm) # 0

\* Storing the program may be refused like any put.
MayRefuse(S) == Reasons(S, HelloOp(<<>>)) # {}

C19(cond, what) == IF cond THEN {} ELSE {<<"C19", what>>}

\* S, T: the disk before and after; code: file 1 after.
HelloBad(S, T, nm, a, s, res, code) ==
    IF res.how # "ok" THEN {<<"C19", "the command did not return (" \o res.how \o ")">>}
    ELSE IF ~ ArgumentsOK(S, nm, a, s) \/ MayRefuse(S)
    THEN C19(res.err, "mkhello succeeded where it had to be refused") \cup C19(res.same, "a refused mkhello changed the image")
    ELSE IF res.err THEN {<<"C19", "mkhello was refused">>}
    ELSE UNION {
           C19(res.whole, "the image is no longer a whole disk"),
           IF ~ Exists(T, Hello) THEN {<<"C19", "there is no file 1">>}
           ELSE C19(Runs(code, Referred(S, nm), a, HelloStart(a, s)), "FHELLO does not load and run the requested file"),
           {<<"C19", b[2]>> : b \in PutBad(S, T, HelloOp(ContentOf(T, Hello)),
                                           [how |-> "ok", err |-> FALSE, kind |-> "none", existed |-> Exists(S, Hello)])}}
=============================================================================
