------------------------------ MODULE MCHello -------------------------------
(* FHELLO run step by step, for every file and page: it reads the file to   *)
(* the page and jumps to the start.  And the cases to try on real disks.    *)
EXTENDS Hello, Json

CONSTANTS Files, PageNos, Offsets, Gen

VARIABLES f, a, s, m
vars == <<f, a, s, m>>
NoNames(x) == 0
AllFiles == 1..253
AllPages == 0..255
Code == Program(f, a, s)

Init == /\ f \in Files /\ a \in {256 * p : p \in PageNos} /\ s \in {a + o : o \in Offsets} \cap 0..65535
        /\ m = StartRun
Next == m.state = "run" /\ m' = StepRun(Code, m) /\ UNCHANGED <<f, a, s>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finishes == <>(m.state # "run")
Right == m.state # "run" => m.state = "done" /\ m.loads = <<[file |-> f, addr |-> a]>> /\ m.jump = s
FitsASector == Len(Code) = 16

\* No two requests have the same program.
ASSUME \A x, y \in {1, 2, 5, 223, 253} : \A p, q \in {0, 256, 24576, 65280} : \A t, u \in {p, p + 1, 65534} :
          Program(x, p, t) = Program(y, q, u) => <<x, p, t>> = <<y, q, u>>

Addrs == {0, 1, 128, 255, 256, 8192, 24576, 24577, 24592, 24608, 24640, 24704, 24831, 49152, 57088, 65280, 65281, 65535}
Starts(x) == {65535, x, x + 1, x - 1, x + 256, x - 256, 65534, 0} \cap 0..65535
\* references: "number", "df", "name", "both", "bothold", "other", "unknown", "colons", "badnum"
Kinds == {"number", "df", "name", "both", "bothold", "other", "unknown", "colons", "badnum", "numnum"}
ASSUME Gen => \A x \in Addrs : \A t \in Starts(x) : \A k \in Kinds : PrintT("HELLO " \o ToJson([addr |-> x, start |-> t, ref |-> k]))
=============================================================================
