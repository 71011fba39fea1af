-------------------------------- MODULE Boot --------------------------------
(* An Apple II starting from a disk, as far as a Standard Delivery loader   *)
(* uses it: the processor, the few zero-page cells of the Disk II boot ROM, *)
(* its entry that reads one sector, the ROM delay routine, and the head's   *)
(* stepper motor.  Memory other than the boot sector's page is kept by what *)
(* was loaded into each page.                                               *)
EXTENDS Bytes

BootPage == 8
ReadSector == 50780          \* $C65C: boot ROM, read a sector and go to $801
Wait == 64680                \* $FCA8: delay; returns A = 0, carry set
Slot == 96                   \* slot 6, times 16

Cells == {38, 39, 43, 61, 64, 65}   \* $26/27 address, $2B slot, $3D sector, $40/41 track

\* As the boot ROM jumps to $801 after reading track 0, sector 0.
Started(boot) ==
    [pc |-> 2049, a |-> 1, x |-> Slot, y |-> 0, c |-> 1, z |-> 0,
     page |-> boot, cell |-> [k \in Cells |-> IF k = 39 THEN 9 ELSE IF k = 43 THEN Slot ELSE IF k = 61 THEN 1 ELSE 0],
     stack |-> <<>>, head |-> 0, loads |-> <<>>, state |-> "run", jump |-> 0]

InPage(addr) == addr \div 256 = BootPage
Mem(m, addr) == IF InPage(addr) THEN m.page[(addr % 256) + 1] ELSE m.cell[addr]
Known(addr) == InPage(addr) \/ addr \in Cells

Stuck(m) == [m EXCEPT !.state = "stuck"]
SetZ(v) == IF v = 0 THEN 1 ELSE 0
Pushed(m, v) == <<v>> \o m.stack

\* A soft switch of the drive: even turns a phase off, odd on; a phase next
\* to the one the head is at pulls it half a track.
Switched(m, addr) ==
    LET i == addr - 49280 - Slot                   \* $C080 + slot
        p == i \div 2
    IN IF i \notin 0..7 \/ i % 2 = 0 THEN m
       ELSE IF p = (m.head + 1) % 4 THEN [m EXCEPT !.head = @ + 1]
       ELSE IF p = (m.head + 3) % 4 /\ m.head > 0 THEN [m EXCEPT !.head = @ - 1]
       ELSE m

\* The boot ROM waits for the wanted sector on the wanted track to come by.
RomRead(m) ==
    LET t == m.cell[65]
        s == m.cell[61]
    IN IF m.head # 2 * t \/ t > 34 \/ s > 15 \/ m.cell[38] # 0 \/ m.x # Slot THEN Stuck(m)
       ELSE LET n == s + 1 IN
            [m EXCEPT !.loads = Append(@, [page |-> m.cell[39], track |-> t, sector |-> s]),
                      !.cell = [m.cell EXCEPT ![39] = (@ + 1) % 256, ![61] = n, ![64] = t],
                      !.a = n, !.c = IF n >= m.page[1] THEN 1 ELSE 0, !.z = SetZ((n - m.page[1] + 256) % 256),
                      !.pc = IF n >= m.page[1] THEN 2049 ELSE ReadSector]

Returned(m) ==
    IF Len(m.stack) < 2 THEN Stuck(m)
    ELSE [m EXCEPT !.pc = m.stack[1] + 256 * m.stack[2] + 1, !.stack = SubSeq(m.stack, 3, Len(m.stack))]

Branch(m, taken) ==
    LET d == Mem(m, m.pc + 1)
        e == IF d > 127 THEN d - 256 ELSE d
    IN [m EXCEPT !.pc = IF taken THEN m.pc + 2 + e ELSE m.pc + 2]

Stored(m, addr, v) ==
    IF ~ Known(addr) THEN Stuck(m)
    ELSE IF InPage(addr) THEN [m EXCEPT !.page = [@ EXCEPT ![(addr % 256) + 1] = v]]
    ELSE [m EXCEPT !.cell = [@ EXCEPT ![addr] = v]]

\* One instruction in the boot page.
Execute(m) ==
    LET op == Mem(m, m.pc)
        b == Mem(m, m.pc + 1)
        w == Mem(m, m.pc + 1) + 256 * Mem(m, m.pc + 2)
        A(v, n) == [m EXCEPT !.a = v, !.z = SetZ(v), !.pc = @ + n]
        Y(v, n) == [m EXCEPT !.y = v, !.z = SetZ(v), !.pc = @ + n]
        Put(addr, v, n) == IF Known(addr) THEN [Stored(m, addr, v) EXCEPT !.z = SetZ(v), !.pc = m.pc + n] ELSE Stuck(m)
        Compare(v, k) == [m EXCEPT !.c = IF v >= k THEN 1 ELSE 0, !.z = IF v = k THEN 1 ELSE 0, !.pc = @ + 2]
    IN CASE op = 168 -> Y(m.a, 1)                                                          \* TAY
         [] op = 138 -> A(m.x, 1)                                                          \* TXA
         [] op = 238 -> IF Known(w) THEN Put(w, (Mem(m, w) + 1) % 256, 3) ELSE Stuck(m)    \* INC abs
         [] op = 230 -> IF Known(b) THEN Put(b, (Mem(m, b) + 1) % 256, 2) ELSE Stuck(m)    \* INC zp
         [] op = 173 -> IF Known(w) THEN A(Mem(m, w), 3) ELSE Stuck(m)                     \* LDA abs
         [] op = 165 -> IF Known(b) THEN A(Mem(m, b), 2) ELSE Stuck(m)                     \* LDA zp
         [] op = 169 -> A(b, 2)                                                            \* LDA #
         [] op = 160 -> Y(b, 2)                                                            \* LDY #
         [] op = 200 -> Y((m.y + 1) % 256, 1)                                              \* INY
         [] op = 201 -> Compare(m.a, b)                                                    \* CMP #
         [] op = 192 -> Compare(m.y, b)                                                    \* CPY #
         [] op = 240 -> Branch(m, m.z = 1)                                                 \* BEQ
         [] op = 208 -> Branch(m, m.z = 0)                                                 \* BNE
         [] op = 144 -> Branch(m, m.c = 0)                                                 \* BCC
         [] op = 176 -> Branch(m, m.c = 1)                                                 \* BCS
         [] op = 133 -> IF Known(b) THEN [Stored(m, b, m.a) EXCEPT !.pc = m.pc + 2] ELSE Stuck(m)  \* STA zp
         [] op = 132 -> IF Known(b) THEN [Stored(m, b, m.y) EXCEPT !.pc = m.pc + 2] ELSE Stuck(m)  \* STY zp
         [] op = 44 -> [m EXCEPT !.pc = @ + 3]                                             \* BIT abs (to skip two bytes)
         [] op = 74 -> [A(m.a \div 2, 1) EXCEPT !.c = m.a % 2]                             \* LSR
         [] op = 42 -> [A((2 * m.a + m.c) % 256, 1) EXCEPT !.c = m.a \div 128]             \* ROL
         [] op = 6 -> IF Known(b) THEN [Put(b, (2 * Mem(m, b)) % 256, 2) EXCEPT !.c = Mem(m, b) \div 128] ELSE Stuck(m)  \* ASL zp
         [] op = 9 -> A(m.a | b, 2)                                                        \* ORA #
         [] op = 5 -> IF Known(b) THEN A(m.a | Mem(m, b), 2) ELSE Stuck(m)                 \* ORA zp
         [] op = 41 -> A(m.a & b, 2)                                                       \* AND #
         [] op = 24 -> [m EXCEPT !.c = 0, !.pc = @ + 1]                                    \* CLC
         [] op = 56 -> [m EXCEPT !.c = 1, !.pc = @ + 1]                                    \* SEC
         [] op = 234 -> [m EXCEPT !.pc = @ + 1]                                            \* NOP
         [] op = 72 -> [m EXCEPT !.stack = Pushed(m, m.a), !.pc = @ + 1]                   \* PHA
         [] op = 32 -> [m EXCEPT !.stack = <<Lo(m.pc + 2), Hi(m.pc + 2)>> \o @, !.pc = w]  \* JSR
         [] op = 96 -> Returned(m)                                                         \* RTS
         [] op = 76 -> [m EXCEPT !.pc = w]                                                 \* JMP
         [] op = 185 -> [Switched(m, w + m.y) EXCEPT !.a = 0, !.pc = m.pc + 3]             \* LDA abs,Y (a soft switch)
         [] OTHER -> Stuck(m)

\* The next step; outside the boot page and the two ROM entries, the loaded
\* program has taken over.
Step(m) ==
    IF m.state # "run" THEN m
    ELSE IF m.pc = ReadSector THEN RomRead(m)
    ELSE IF m.pc = Wait THEN Returned([m EXCEPT !.a = 0, !.c = 1, !.z = 1])
    ELSE IF InPage(m.pc) /\ (m.pc % 256) <= 253 THEN Execute(m)
    ELSE [m EXCEPT !.state = "done", !.jump = m.pc]

\* 2^k steps.
RECURSIVE Run(_, _)
Run(m, k) == IF m.state # "run" THEN m ELSE IF k = 0 THEN TLCEval(Step(m)) ELSE LET h == TLCEval(Run(m, k - 1)) IN Run(h, k - 1)
Booted(boot) == Run(Started(boot), 14)
=============================================================================
