----------------------------- MODULE MCInteger -----------------------------
(* A reader taking every small memory a byte at a time, against the         *)
(* definition; what was stored is what is read; and a line of elements is   *)
(* listed as the listing of its elements.                                   *)
EXTENDS IntegerBasic, Json

CONSTANTS MaxLen, Alphabet, Gen

VARIABLES mem, status, pc, left, lines
vars == <<mem, status, pc, left, lines>>

Init == mem = <<>> /\ status = "build" /\ pc = 0 /\ left = 0 /\ lines = <<>>
Build(c) == status = "build" /\ Len(mem) < MaxLen /\ mem' = Append(mem, c) /\ UNCHANGED <<status, pc, left, lines>>
Start == status = "build" /\ ~ HasHeader(mem) /\ status' = "size" /\ UNCHANGED <<mem, pc, left, lines>>
Fail == status' = "failed" /\ UNCHANGED <<mem, pc, left, lines>>
Size ==
    /\ status = "size"
    /\ IF Len(mem) - pc < 4 THEN status' = "done" /\ UNCHANGED <<mem, pc, left, lines>>
       ELSE IF mem[pc + 1] < 4 \/ pc + mem[pc + 1] > Len(mem) THEN Fail
       ELSE /\ left' = mem[pc + 1] - 4 /\ pc' = pc + 3 /\ status' = "text"
            /\ lines' = Append(lines, [num |-> mem[pc + 2] + 256 * mem[pc + 3], text |-> <<>>])
            /\ UNCHANGED mem
Text ==
    /\ status = "text"
    /\ IF left > 0
       THEN /\ left' = left - 1 /\ pc' = pc + 1 /\ lines' = [lines EXCEPT ![Len(lines)].text = Append(@, mem[pc + 1])]
            /\ UNCHANGED <<mem, status>>
       ELSE IF mem[pc + 1] # EndMark THEN Fail
       ELSE pc' = pc + 1 /\ status' = "size" /\ UNCHANGED <<mem, left, lines>>
GenNext == \E c \in Alphabet : Build(c)
Next == GenNext \/ Start \/ Size \/ Text
Spec == Init /\ [][Next]_vars /\ WF_vars(Size) /\ WF_vars(Text)

Ends == (status = "size") ~> (status \in {"done", "failed"})
Agrees == /\ status = "done" => (Decoded(mem).ok /\ Decoded(mem).lines = lines)
          /\ status = "failed" => ~ Decoded(mem).ok

\* Elements of a line, and what each is listed as.
Elements == {
    [t |-> <<97>>, s |-> <<80, 82, 73, 78, 84, 32>>],                                     \* PRINT
    [t |-> <<3>>, s |-> <<58>>],                                                          \* :
    [t |-> <<193, 177>>, s |-> <<65, 49>>],                                               \* A1
    [t |-> <<40, 177, 178, 200, 41>>, s |-> <<34, 49, 50, 72, 34>>],                      \* "12H"
    [t |-> <<18, 177, 10, 1>>, s |-> <<43, 50, 54, 54>>],                                 \* +266
    [t |-> <<93, 177, 178>>, s |-> <<82, 69, 77, 32, 49, 50>>]}                           \* REM 12
Rendering ==
    status = "build" /\ mem = <<>> =>
      \A a, b, c \in Elements :
         (a.t[1] # Rem /\ b.t[1] # Rem /\ ~ (a.t[1] = 193 /\ b.t[1] = 193) /\ ~ (b.t[1] = 193 /\ c.t[1] = 193)
             /\ ~ (a.t[1] = 18 /\ b.t[1] = 193) /\ ~ (b.t[1] = 18 /\ c.t[1] = 193)) =>
         LET x == [num |-> 10, text |-> a.t \o b.t \o c.t] IN
         /\ LineListed(x) = <<32, 32, 32, 49, 48, 32>> \o a.s \o b.s \o c.s
         /\ Listable(x.text)
RoundTrip ==
    status = "build" /\ mem = <<>> =>
      \A a, b \in Elements : \A n \in {0, 10, 65535} : \A k \in 0..2 :
        LET p == SubSeq(<<[num |-> n, text |-> a.t], [num |-> 256, text |-> b.t]>>, 1, k)
            m == Stored(p)
        IN /\ ~ HasHeader(m) => Decoded(m).ok /\ Decoded(m).lines = p
           /\ LET h == Decoded(<<Lo(Len(m)), Hi(Len(m))>> \o m) IN h.ok /\ h.lines = p
Printed == (Gen /\ status = "build") => PrintT("MEM " \o ToJson(mem))
=============================================================================
