----------------------------- MODULE Dos33Model -----------------------------
(* A small DOS 3.3 disk and what DOS does to it: saving files (with holes),  *)
(* deleting them, initialising catalog sectors.  Checked: reading the disk   *)
(* by its structures alone gives back what was saved, the catalog lists      *)
(* exactly the files that were saved and not deleted, in entry order.        *)
(* Geometry is scaled down; the reading rules are those of Dos33.tla.        *)
EXTENDS Integers, Sequences, FiniteSets, Chains

CONSTANTS Sectors,    \* sector numbers 1..Sectors; 0 is "none"
          CatSectors, \* the catalog chain, a sequence of sectors
          PerCat,     \* entries per catalog sector
          PerList,    \* pairs per track/sector list
          Names, MaxLen, Values

VARIABLES disk,   \* sector -> [next, list, ents, val]
          files,  \* the logical files: name -> sequence of values (0: a hole), or absent
          order   \* entry positions ever given, logical: position -> name or "" (deleted) 
vars == <<disk, files, order>>

All == 1..Sectors
CatSet == {CatSectors[i] : i \in 1..Len(CatSectors)}
NoEntry == [first |-> 0, name |-> ""]         \* never used
DelEntry == -1                                 \* first = -1: deleted
Blank == [next |-> 0, list |-> [k \in 1..PerList |-> 0], ents |-> [k \in 1..PerCat |-> NoEntry], val |-> 0, used |-> FALSE]

Rubbish == [Blank EXCEPT !.next = 1, !.list = [k \in 1..PerList |-> 1], !.val = 99]

NextCat(s) == LET i == CHOOSE i \in 1..Len(CatSectors) : CatSectors[i] = s
              IN IF i = Len(CatSectors) THEN 0 ELSE CatSectors[i + 1]

Init == /\ disk = [s \in All |-> IF s \in CatSet THEN [Blank EXCEPT !.next = NextCat(s), !.used = TRUE] ELSE Blank]
        /\ files = [n \in {} |-> <<>>]
        /\ order = <<>>

Free == {s \in All : ~ disk[s].used}
Positions == 1..(Len(CatSectors) * PerCat)
PosSector(p) == CatSectors[((p - 1) \div PerCat) + 1]
PosSlot(p) == ((p - 1) % PerCat) + 1
EntryAt(p) == disk[PosSector(p)].ents[PosSlot(p)]
FreePositions == {p \in Positions : EntryAt(p).first \in {0, DelEntry}}

Lists(n) == IF n = 0 THEN 1 ELSE (n + PerList - 1) \div PerList

\* Placing in ascending or descending order of sector.
Rank(x, X) == Cardinality({y \in X : y <= x})
Fit(U, F, up) == [u \in U |-> CHOOSE f \in F : Rank(f, F) = IF up THEN Rank(u, U) ELSE Cardinality(U) + 1 - Rank(u, U)]

\* Saving data (a sequence over Values, 0 a hole, not ending in a hole).
Save == \E n \in Names \ DOMAIN files, len \in 0..MaxLen :
        \E data \in [1..len -> Values \cup {0}] :
          /\ len > 0 => data[len] # 0
          /\ FreePositions # {}
          /\ LET p == CHOOSE p \in FreePositions : \A q \in FreePositions : p <= q
                 real == {i \in 1..len : data[i] # 0}
                 nl == Lists(len)
                 want == Cardinality(real) + nl
                 use == (1..nl) \cup {MaxLen + i : i \in real}
             IN \E up \in BOOLEAN, F \in {X \in SUBSET Free : Cardinality(X) = want} : \E place \in {Fit(use, F, up)} :
                  /\ disk' = [s \in All |->
                        IF s = PosSector(p)
                        THEN [disk[s] EXCEPT !.ents[PosSlot(p)] = [first |-> place[1], name |-> n]]
                        ELSE IF \E k \in 1..nl : place[k] = s
                        THEN LET k == CHOOSE k \in 1..nl : place[k] = s
                             IN [Blank EXCEPT !.used = TRUE,
                                  !.next = IF k = nl THEN 0 ELSE place[k + 1],
                                  !.list = [j \in 1..PerList |->
                                      LET i == (k - 1) * PerList + j
                                      IN IF i > len \/ i \notin real THEN 0 ELSE place[MaxLen + i]]]
                        ELSE IF \E i \in real : place[MaxLen + i] = s
                        THEN [Blank EXCEPT !.used = TRUE, !.val = data[CHOOSE i \in real : place[MaxLen + i] = s]]
                        ELSE disk[s]]
                  /\ files' = [m \in DOMAIN files \cup {n} |-> IF m = n THEN data ELSE files[m]]
                  /\ order' = [q \in DOMAIN order \cup {p} |-> IF q = p THEN n ELSE order[q]]

ReadLists(e) == Chain(e.first, 0, LAMBDA s : s \in All, LAMBDA s : disk[s].next)
Slots(e) ==
    LET c == ReadLists(e).seq
        n == Len(c)
        L(k) == disk[c[k]].list
        Last == LET U == {j \in 1..PerList : L(n)[j] # 0} IN IF U = {} THEN 0 ELSE CHOOSE j \in U : \A i \in U : i <= j
        total == (n - 1) * PerList + Last
    IN [i \in 1..total |-> L(((i - 1) \div PerList) + 1)[((i - 1) % PerList) + 1]]
ReadData(e) == [i \in 1..Len(Slots(e)) |-> IF Slots(e)[i] = 0 THEN 0 ELSE disk[Slots(e)[i]].val]

\* Deleting marks the entry and frees the sectors (their bytes stay: rubbish).
Delete == \E p \in DOMAIN order :
            /\ order[p] # ""
            /\ LET e == EntryAt(p)
                   c == ReadLists(e).seq
                   mine == {c[i] : i \in 1..Len(c)} \cup ({Slots(e)[i] : i \in 1..Len(Slots(e))} \ {0})
               IN disk' = [s \in All |->
                     IF s = PosSector(p) THEN [disk[s] EXCEPT !.ents[PosSlot(p)].first = DelEntry]
                     ELSE IF s \in mine THEN Rubbish ELSE disk[s]]
            /\ files' = [m \in DOMAIN files \ {order[p]} |-> files[m]]
            /\ order' = [order EXCEPT ![p] = ""]

Next == Save \/ Delete
Spec == Init /\ [][Next]_vars

\* The catalog as read: the chain from its first sector, entries in order.
CatChain == Chain(CatSectors[1], 0, LAMBDA s : s \in All, LAMBDA s : disk[s].next)
Listed == SelectSeq([p \in 1..(Len(CatChain.seq) * PerCat) |->
              disk[CatChain.seq[((p - 1) \div PerCat) + 1]].ents[((p - 1) % PerCat) + 1]],
            LAMBDA e : e.first \notin {0, DelEntry})

ListsExactly ==
    /\ CatChain.ok
    /\ {Listed[i].name : i \in 1..Len(Listed)} = DOMAIN files
    /\ Len(Listed) = Cardinality(DOMAIN files)
    /\ \A i, j \in 1..Len(Listed) : i < j =>
          \E p, q \in DOMAIN order : p < q /\ order[p] = Listed[i].name /\ order[q] = Listed[j].name
ReadsBack == \A i \in 1..Len(Listed) : ReadLists(Listed[i]).ok /\ ReadData(Listed[i]) = files[Listed[i].name]
\* Reading one file never depends on another's sectors.
Apart == \A i, j \in 1..Len(Listed) : i # j =>
            {Slots(Listed[i])[k] : k \in 1..Len(Slots(Listed[i]))} \cap {Slots(Listed[j])[k] : k \in 1..Len(Slots(Listed[j]))} \subseteq {0}
=============================================================================
