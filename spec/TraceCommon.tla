---------------------------- MODULE TraceCommon ----------------------------
(* What all trace specifications share: the recorded lines, which property  *)
(* is asked about, and the acceptance condition.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
NumLines == Len(Lines)

\* The complaints of a set that concern the property asked about.
Mine(bad) == {b \in bad : b[1] = Prop}

\* All lines were consumed (one state per line, plus the initial one).
AllConsumed == TLCGet("stats").diameter - 1 = NumLines

\* The invariant of a trace specification: no complaint about the property.
\* Otherwise say which, and stop there (so that AllConsumed fails).
Verdict(l, bad) ==
    \/ Mine(bad) = {}
    \/ /\ PrintT("COMPLAINT " \o ToJson([line |-> l, case |-> Lines[l].case, what |-> {b[2] : b \in Mine(bad)}]))
       /\ TLCSet("exit", TRUE)

Flag(x) == x = 1
=============================================================================
