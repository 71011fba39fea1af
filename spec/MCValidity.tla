----------------------------- MODULE MCValidity -----------------------------
(* A file system makes and removes files while a clock runs, then bytes get *)
(* damaged: what is wrong is exactly what was damaged.  The blocks are      *)
(* printed as cases.                                                        *)
EXTENDS Validity, Json

CONSTANTS Slots,      \* entries used
          Clock,      \* <<hour, minute>>
          MaxFiles, MaxDamage,
          Gen

VARIABLES kind, b, files, hurt, done
vars == <<kind, b, files, hurt, done>>

SomeClock == {<<0, 0>>, <<23, 59>>, <<9, 49>>, <<23, 0>>}
FewClock == {<<23, 59>>, <<9, 49>>}
AllSlots == {1, 2, 12, 13}
FewSlots == {1, 12, 13}

Stamp(blk, o, t) == [blk EXCEPT ![o + 1] = 45, ![o + 2] = 36, ![o + 3] = t[2], ![o + 4] = t[1]]
Blank(k, t) ==
    LET z == TLCEval([i \in 1..512 |-> 0])
        h == IF Key(k) THEN Stamp([z EXCEPT ![5] = IF k = "volkey" THEN 241 ELSE 225, ![6] = 65], HeaderPlace + 24, t) ELSE z
    IN IF k = "subkey" THEN [h EXCEPT ![HeaderPlace + 17] = 117] ELSE IF Key(k) THEN h ELSE [h EXCEPT ![1] = 2]

Init == /\ kind \in Kinds /\ \E t \in Clock : b = Blank(kind, t)
        /\ files = {} /\ hurt = {} /\ done = 0

Make(s, t1, t2) ==
    LET p == EntryPlace(kind, s)
    IN /\ s \notin files /\ done < MaxFiles
       /\ b' = Stamp(Stamp([b EXCEPT ![p + 1] = 33, ![p + 2] = 70], p + 24, t1), p + 33, t2)
       /\ files' = files \cup {s} /\ done' = done + 1 /\ UNCHANGED <<kind, hurt>>
Remove(s) == /\ s \in files /\ done < MaxFiles
             /\ b' = [b EXCEPT ![EntryPlace(kind, s) + 1] = 0]
             /\ files' = files \ {s} /\ done' = done + 1 /\ UNCHANGED <<kind, hurt>>

Times(w) == {<<3, 60>>, <<3, 255>>, <<4, 24>>, <<4, 128>>}
Hurts ==
    (IF Key(kind) THEN {[f |-> <<"prev">>, o |-> o, v |-> v] : o \in {0, 1}, v \in {1, 128}} ELSE {})
    \cup {[f |-> <<"extra">>, o |-> 511, v |-> v] : v \in {1, 128, 255}}
    \cup (IF kind = "subkey" THEN {[f |-> <<"75">>, o |-> HeaderPlace + 16, v |-> v] : v \in {0, 118}} ELSE {})
    \cup (IF Key(kind) THEN {[f |-> <<"header">>, o |-> HeaderPlace + 23 + x[1], v |-> x[2]] : x \in Times(0)} ELSE {})
    \cup {[f |-> <<"created", s>>, o |-> EntryPlace(kind, s) + 23 + x[1], v |-> x[2]] : s \in files, x \in Times(0)}
    \cup {[f |-> <<"modified", s>>, o |-> EntryPlace(kind, s) + 32 + x[1], v |-> x[2]] : s \in files, x \in Times(0)}
Damage == /\ Cardinality(hurt) < MaxDamage
          /\ \E h \in Hurts : /\ h.f \notin hurt
                              /\ b' = [b EXCEPT ![h.o + 1] = h.v] /\ hurt' = hurt \cup {h.f}
          /\ done' = MaxFiles /\ UNCHANGED <<kind, files>>

Next == \/ \E s \in Slots \cap EntriesOf(kind) : Remove(s) \/ \E t1, t2 \in Clock : Make(s, t1, t2)
        \/ Damage
Spec == Init /\ [][Next]_vars

Exactly == Violations(kind, b) = hurt
\* A program that complains about just these fields conforms; one that takes
\* the minute for the hour does not.
Swapped(blk, o) == [blk EXCEPT ![o + 3] = blk[o + 4], ![o + 4] = blk[o + 3]]
Conforming == /\ Judgement(kind, b, Cardinality(hurt)) = {}
              /\ hurt # {} => Judgement(kind, b, Cardinality(hurt) - 1) # {}
              /\ (hurt = {} /\ ~ LeftOpen(kind, b)) => Judgement(kind, b, 1) # {}
ASSUME \E t \in SomeClock : Violations("volkey", Blank("volkey", t)) = {}
                            /\ Violations("volkey", Swapped(Blank("volkey", t), HeaderPlace + 24)) # {}

Sparse(x) == {<<i - 1, x[i]>> : i \in {i \in 1..512 : x[i] # 0}}
Shown == Gen => PrintT("BLOCK " \o ToJson([kind |-> kind, bytes |-> Sparse(b)]))
=============================================================================
