---------------------------- MODULE ProDOSModel -----------------------------
(* A small ProDOS volume and what ProDOS does to its directories: making     *)
(* directories and files, removing files, growing a directory by a block.    *)
(* Checked: reading by structures alone (ProDOSTree) finds exactly the       *)
(* directories that exist, under their paths, with exactly their entries.    *)
EXTENDS ProDOSTree

CONSTANTS Blocks,    \* number of blocks; block 2 is the volume's key block
          PerKey, PerBlk, \* entries in a key block, in a later block
          Names, MaxDepth, MaxEntries

VARIABLES disk,  \* block -> [kind, next, ents, name, parent]
          tree   \* path -> sequence of entries [name, dir] (name <<>>: removed)
vars == <<disk, tree>>

None == [st |-> 0, name |-> "", key |-> 0]      \* deleted or never used
Blank == [kind |-> "free", next |-> 0, ents |-> <<>>, name |-> "", parent |-> 0]
Key(n, p) == [kind |-> "key", next |-> 0, ents |-> [i \in 1..PerKey |-> None], name |-> n, parent |-> p]
Later == [kind |-> "later", next |-> 0, ents |-> [i \in 1..PerBlk |-> None], name |-> "", parent |-> 0]

Init == /\ disk = [b \in 0..(Blocks - 1) |-> IF b = 2 THEN Key("", 0) ELSE IF b < 2 THEN [Blank EXCEPT !.kind = "boot"] ELSE Blank]
        /\ tree = [p \in {<<>>} |-> <<>>]

Free == {b \in DOMAIN disk : disk[b].kind = "free"}

\* What a reader uses.
SubKeysIn(b) == LET s == SelectSeq(disk[b].ents, LAMBDA e : e.st = 13) IN [i \in 1..Len(s) |-> s[i].key]
Shape == [n |-> Blocks, at |-> DOMAIN disk, next |-> [b \in DOMAIN disk |-> disk[b].next],
          keysubs |-> [b \in DOMAIN disk |-> SubKeysIn(b)], blksubs |-> [b \in DOMAIN disk |-> SubKeysIn(b)],
          name |-> [b \in DOMAIN disk |-> disk[b].name], parent |-> [b \in DOMAIN disk |-> disk[b].parent]]

\* The writer's own knowledge: directory of a path, found through entries.
RECURSIVE KeyFrom(_, _)
DirBlks(k) == DirBlocks(Shape, k).seq
EntriesOf(k) == Flat([i \in 1..Len(DirBlks(k)) |-> disk[DirBlks(k)[i]].ents], 1)
KeyFrom(k, path) ==
    IF path = <<>> THEN k
    ELSE LET es == EntriesOf(k)
             i == CHOOSE i \in 1..Len(es) : es[i].st = 13 /\ es[i].name = path[1]
         IN KeyFrom(es[i].key, Tail(path))
KeyOf(path) == KeyFrom(VolKey, path)

\* Puts an entry in the first free slot of the directory (slot i of block b),
\* with the tree's logical sequence kept alike.
SlotsOf(k) == {<<j, i>> \in (1..Len(DirBlks(k))) \X (1..(PerKey + PerBlk)) :
                  i <= Len(disk[DirBlks(k)[j]].ents) /\ disk[DirBlks(k)[j]].ents[i].st = 0}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
FirstSlot(k) == CHOOSE s \in SlotsOf(k) : \A t \in SlotsOf(k) : s = t \/ Before(s, t)
Index(s) == IF s[1] = 1 THEN s[2] ELSE PerKey + (s[1] - 2) * PerBlk + s[2]

PutAt(seq, i, e) == [j \in 1..(IF i > Len(seq) THEN i ELSE Len(seq)) |->
                        IF j = i THEN e ELSE IF j <= Len(seq) THEN seq[j] ELSE [name |-> "", dir |-> FALSE]]
Live(p) == SelectSeq(tree[p], LAMBDA e : e.name # "")
HasName(p, n) == \E i \in 1..Len(tree[p]) : tree[p][i].name = n
Room(p) == Len(Live(p)) < MaxEntries

MakeFile == \E p \in DOMAIN tree, n \in Names :
    /\ ~ HasName(p, n) /\ Room(p)
    /\ \E k \in {KeyOf(p)} :
         /\ SlotsOf(k) # {}
         /\ \E s \in {FirstSlot(k)} :
              /\ disk' = [disk EXCEPT ![DirBlks(k)[s[1]]].ents[s[2]] = [st |-> 1, name |-> n, key |-> 0]]
              /\ tree' = [tree EXCEPT ![p] = PutAt(@, Index(s), [name |-> n, dir |-> FALSE])]

MakeDir == \E p \in DOMAIN tree, n \in Names, b \in Free :
    /\ ~ HasName(p, n) /\ Room(p) /\ Len(p) < MaxDepth
    /\ \E k \in {KeyOf(p)} :
         /\ SlotsOf(k) # {}
         /\ \E s \in {FirstSlot(k)} :
            \* the parent pointer names the block that has the entry, or the key block
            \E q \in {DirBlks(k)[s[1]], k} :
              /\ disk' = [disk EXCEPT ![DirBlks(k)[s[1]]].ents[s[2]] = [st |-> 13, name |-> n, key |-> b],
                                      ![b] = Key(n, q)]
              /\ tree' = [x \in DOMAIN tree \cup {Append(p, n)} |->
                            IF x = p THEN PutAt(tree[p], Index(s), [name |-> n, dir |-> TRUE])
                            ELSE IF x = Append(p, n) THEN <<>> ELSE tree[x]]

Grow == \E p \in DOMAIN tree, b \in Free :
    \E k \in {KeyOf(p)} :
       /\ SlotsOf(k) = {}
       /\ disk' = [disk EXCEPT ![DirBlks(k)[Len(DirBlks(k))]].next = b, ![b] = Later]
       /\ UNCHANGED tree

Remove == \E p \in DOMAIN tree : \E i \in 1..Len(tree[p]) :
    /\ tree[p][i].name # "" /\ ~ tree[p][i].dir
    /\ \E k \in {KeyOf(p)} :
         LET j == IF i <= PerKey THEN 1 ELSE 2 + (i - PerKey - 1) \div PerBlk
             o == IF i <= PerKey THEN i ELSE ((i - PerKey - 1) % PerBlk) + 1
         IN disk' = [disk EXCEPT ![DirBlks(k)[j]].ents[o].st = 0]
    /\ tree' = [tree EXCEPT ![p][i].name = ""]

Next == MakeFile \/ MakeDir \/ Grow \/ Remove
Spec == Init /\ [][Next]_vars

Vol == Read(Shape)
Par == Parents(Shape, Vol)
Valid == ValidTree(Vol, Par)
\* The directories found are exactly those that exist, under their paths.
FindsDirs == /\ {PathOf(Shape, Vol, Par, d) : d \in 1..Len(Vol.dirs)} = DOMAIN tree \ {<<>>}
             /\ Len(Vol.dirs) = Cardinality(DOMAIN tree) - 1
\* Each lists exactly its live entries, in order.
ListOf(d) == LET k == IF d = 0 THEN VolKey ELSE Vol.dirs[d].key IN SelectSeq(EntriesOf(k), LAMBDA e : e.st # 0)
SameList(es, ts) == Len(es) = Len(ts) /\ \A i \in 1..Len(es) : es[i].name = ts[i].name /\ (es[i].st = 13) = ts[i].dir
ListsExactly == \A d \in 0..Len(Vol.dirs) : SameList(ListOf(d), Live(IF d = 0 THEN <<>> ELSE PathOf(Shape, Vol, Par, d)))
=============================================================================
