---------------------------- MODULE NakedOSModel ----------------------------
(* A constructive NakedOS, small enough to explore completely: which file   *)
(* a name means, where sectors are allocated (any free ones), how the       *)
(* symbol table is rewritten.  Every transition is checked against every    *)
(* promise of NakedOS.tla, and every reachable disk is handed to the driver *)
(* as a history to replay on the real code.                                 *)
EXTENDS NakedOS, Json, IOUtils

CONSTANTS NumFree,        \* sectors free at the start
          TargetNames,    \* names used in puts and deletes
          Sizes,          \* in sectors
          MaxHist,        \* bound on history length (0: no bound)
          Generating      \* only produce histories: one allocation, no checks

VARIABLES own, con, tab, want, hist

vars == <<own, con, tab, want, hist>>
State == [own |-> own, sec |-> SecOf(own), con |-> con, head |-> 0, tab |-> tab, st |-> TRUE]

\* sector 1: the map; 2: reserved; 3, 4: the symbol files; the rest free.
Init == /\ own = [p \in Pos |-> IF p <= 2 THEN Reserved ELSE IF p = 3 THEN Sym1
                                ELSE IF p = 4 THEN Sym2 ELSE Free]
        /\ con = [p \in Pos |-> 0]
        /\ tab = <<>>
        /\ want = <<>>
        /\ hist = <<>>

\* Tables and expectations are functions with varying domains; <<>> is the
\* empty one.
Restrict(fn, D) == [x \in D |-> fn[x]]

\* All ways to take k of the free sectors: nothing promises which.
Choices(S, k) == IF Generating THEN {{p \in S : Cardinality({q \in S : q <= p}) <= k}}
                 ELSE {X \in SUBSET S : Cardinality(X) = k}

Data(k, v) == TLCEval([i \in 1..k |-> v * 10 + i])

PutOp(nm, k, v, ow) ==
    [name |-> nm, n |-> IF k = 0 THEN 0 ELSE SecBytes * k - 1, dlen |-> IF k = 0 THEN 0 ELSE SecBytes * k - 1,
     binary |-> TRUE, ow |-> ow, data |-> Data(k, v)]

\* position of p in the set X, counted from 1
Rank(p, X) == Cardinality({q \in X : q <= p})

Store(S, f, X, data) ==
    LET o == TLCEval([p \in Pos |-> IF p \in X THEN f ELSE IF S.own[p] = f THEN Free ELSE S.own[p]])
    IN [S EXCEPT !.own = o, !.sec = SecOf(o),
              !.con = TLCEval([p \in Pos |-> IF p \in X THEN data[Rank(p, X)] ELSE S.con[p]])]

\* The disks an operation can lead to, each with the complaints about it.
\* S: disk; w: what each file should hold.
PutOutcomes(S, w, op, h) ==
    LET t == Target(S, op.name)
        why == Reasons(S, op)
        f == IF t.file # 0 THEN t.file ELSE LowestUnused(S)
        adds == t.name # <<>> /\ SymFile(S, t.name) # f
        tab2 == IF adds THEN DoAdd(S.tab, Upper(t.name), FileAddr(f)) ELSE S.tab
        w2 == TLCEval([g \in DOMAIN w \cup {f} |-> IF g = f THEN op.data ELSE w[g]])
        Bad(T, err, kind) ==
            IF Generating THEN {}
            ELSE PutBad(S, T, op, [how |-> "ok", err |-> err, kind |-> kind, existed |-> f # 0 /\ Exists(S, f)])
    IN IF why # {}
       THEN {[T |-> S, w |-> w, h |-> <<>>, bad |-> Bad(S, TRUE, r[2])] : r \in why}
       ELSE {LET T == TLCEval([Store(S, f, X, op.data) EXCEPT !.tab = tab2])
             IN [T |-> T, w |-> w2, h |-> <<h>>, bad |-> Bad(T, FALSE, "none")]
             : X \in Choices(FreeOf(S) \cup SectorsOf(S, f), Len(op.data))}

DeleteOutcome(S, w, nm, h) ==
    LET f == Resolve(S, nm)
        drops == NumberOf(nm) = 0 /\ SlotsNamed(S.tab, nm) # {}
        T == IF f = 0 THEN S
             ELSE LET o == TLCEval([p \in Pos |-> IF S.own[p] = f THEN Free ELSE S.own[p]])
                  IN TLCEval([S EXCEPT !.own = o, !.sec = SecOf(o),
                                    !.tab = IF drops THEN DoDelete(S.tab, nm) ELSE S.tab])
    IN [T |-> T,
        w |-> IF f = 0 THEN w ELSE Restrict(w, DOMAIN w \ {f}),
        h |-> IF f = 0 THEN <<>> ELSE <<h>>,
        bad |-> IF Generating THEN {}
                ELSE DeleteBad(S, T, nm, [how |-> "ok", err |-> FALSE, existed |-> f # 0 /\ Exists(S, f)])]

Ops == {[op |-> "put", name |-> nm, k |-> k, v |-> v, ow |-> ow] :
          nm \in TargetNames, k \in Sizes, v \in {1, 2}, ow \in BOOLEAN}
       \cup {[op |-> "del", name |-> nm] : nm \in TargetNames}

Outcomes(S, w, o) ==
    IF o.op = "put" THEN PutOutcomes(S, w, PutOp(o.name, o.k, o.v, o.ow), o)
    ELSE {DeleteOutcome(S, w, o.name, o)}

Next == \E o \in Ops : \E r \in Outcomes(State, want, o) :
           /\ Assert(r.bad = {}, <<o, r>>)
           /\ own' = r.T.own /\ con' = r.T.con /\ tab' = r.T.tab
           /\ want' = r.w /\ hist' = hist \o r.h

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants of the model.                                                 *)

\* C04: whatever the history, every file reads back as last put.
ReadsBack == /\ \A f \in DOMAIN want : ContentOf(State, f) = want[f]
             /\ UsedNums(State) \ {Sym1, Sym2} = DOMAIN want
\* C06: sectors are conserved.
Conserved == Cardinality(FreeOf(State)) = NumFree -
             Cardinality({p \in Pos : own[p] \in DOMAIN want})
\* C05: reserved sectors are never handed out.
ReservedKept == own[1] = Reserved /\ own[2] = Reserved /\ con[2] = 0
\* C09
TableSound == WellFormed(tab) /\ \A i, j \in DOMAIN tab : i # j => tab[i].name # tab[j].name

Invariant == ReadsBack /\ Conserved /\ ReservedKept /\ TableSound

\* What distinguishes disks; what a free sector holds does not.
DiskView == <<own, [p \in Pos |-> IF own[p] = Free THEN 0 ELSE con[p]], tab, want>>
\* Allocation does not matter either when generating histories: files by
\* contents, and the table.
FileView == <<want, tab>>

\* Emit one history per distinct state, in generator runs.
Short == MaxHist = 0 \/ Len(hist) <= MaxHist
Emit == Short => PrintT("HIST " \o ToJson(hist))
=============================================================================
