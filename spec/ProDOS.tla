------------------------------- MODULE ProDOS -------------------------------
(* ProDOS volumes, byte by byte (Beneath Apple ProDOS, chapter 4), as read.  *)
(* An image is [n, blks, secs]: n blocks; block blks[i] holds secs[i], and   *)
(* the blocks not mentioned hold zeros.  blks is ascending.                  *)
EXTENDS Bytes, ProDOSTree

ZeroBlock == TLCEval(Zeros(512))

RECURSIVE Find(_, _, _, _)
Find(blks, b, lo, hi) ==
    IF lo > hi THEN 0
    ELSE LET m == (lo + hi) \div 2
         IN IF blks[m] = b THEN m ELSE IF blks[m] < b THEN Find(blks, b, m + 1, hi) ELSE Find(blks, b, lo, m - 1)
Block(img, b) ==
    LET k == Find(img.blks, b, 1, Len(img.blks)) IN IF k = 0 THEN ZeroBlock ELSE img.secs[k]

\* The 39-byte entries of a key block (after its header) and of a later one.
KeyEntries(blk) == [i \in 1..12 |-> Slice(blk, 43 + 39 * (i - 1), 39)]
BlkEntries(blk) == [i \in 1..13 |-> Slice(blk, 4 + 39 * (i - 1), 39)]

StorageType(e) == At(e, 0) \div 16
EntryName(e) == Slice(e, 1, At(e, 0) % 16)
FileType(e) == At(e, 16)
KeyPointer(e) == Word(e, 17)
BlocksUsed(e) == Word(e, 19)
EOFOf(e) == Word(e, 21) + 65536 * At(e, 23)

IsActive(e) == StorageType(e) # 0
IsSubdir(e) == StorageType(e) = 13
SubKeys(es) == LET s == SelectSeq(es, IsSubdir) IN TLCEval([i \in 1..Len(s) |-> KeyPointer(s[i])])

\* The shape of the volume (see ProDOSTree).  Block 2's name is not used.
ShapeOf(img) ==
    LET at == {img.blks[i] : i \in 1..Len(img.blks)}
    IN [n |-> img.n, at |-> at,
        next |-> [b \in at |-> Word(Block(img, b), 2)],
        keysubs |-> [b \in at |-> SubKeys(KeyEntries(Block(img, b)))],
        blksubs |-> [b \in at |-> SubKeys(BlkEntries(Block(img, b)))],
        name |-> [b \in at |-> EntryName(Slice(Block(img, b), 4, 39))],
        parent |-> [b \in at |-> Word(Block(img, b), 39)]]

\* Pathnames have 128 characters at most, so no directory lies deeper; what
\* becomes of volumes that say otherwise is open.  So is what becomes of a
\* large volume whose bitmap would lie outside the device.
BitMapPointer(img) == Word(Block(img, 2), 39)
BitMapOpen(img) == img.n > 2 /\ img.n >= 4096 /\ BitMapPointer(img) + CeilDiv(img.n, 4096) > img.n
DeepestPath == 64

\* What there is to know about a volume: valid or not, open or not, its root
\* blocks, directories and their paths.
RECURSIVE Join(_, _)
Join(ns, i) == IF i > Len(ns) THEN <<>> ELSE IF i = 1 THEN ns[1] \o Join(ns, 2) ELSE <<47>> \o ns[i] \o Join(ns, i + 1)

NoVolume == [open |-> FALSE, valid |-> FALSE, root |-> <<>>, dirs |-> <<>>, paths |-> <<>>, named |-> FALSE]
VolumeOf(img) ==
    LET V == ShapeOf(img)
        R == TLCEval(Read(V))
        P == Parents(V, R)
    IN IF ~ R.ok THEN [NoVolume EXCEPT !.open = BitMapOpen(img)]
       ELSE IF ~ ValidTree(R, P) THEN [NoVolume EXCEPT !.open = BitMapOpen(img)]
       ELSE [open |-> BitMapOpen(img) \/ \E d \in Depths(R, P) : d > DeepestPath,
             valid |-> TRUE, root |-> R.root, dirs |-> R.dirs,
             paths |-> TLCEval([d \in 1..Len(R.dirs) |-> Join(PathOf(V, R, P, d), 1)]),
             named |-> \A d \in 1..Len(R.dirs) : NameAt(V, R.dirs[d].key) # <<>>]

\* The active entries of a directory, in order.
Listing(img, blocks) ==
    SelectSeq(TLCEval(Concat([i \in 1..Len(blocks) |->
        IF i = 1 THEN KeyEntries(Block(img, blocks[i])) ELSE BlkEntries(Block(img, blocks[i]))])), IsActive)

\* The directories with a path.
AtPath(vol, path) == {d \in 1..Len(vol.dirs) : vol.paths[d] = path}

\* Whether what a path names is settled: other spellings of a directory's
\* path (letter case, outer slashes) are open, and so are directories without
\* names or with the same path.
RECURSIVE Bare(_)
Bare(p) == IF p = <<>> THEN p ELSE IF p[1] = 47 THEN Bare(Tail(p))
           ELSE IF p[Len(p)] = 47 THEN Bare(SubSeq(p, 1, Len(p) - 1)) ELSE p
Settled(vol, path) ==
    \/ path = <<>>
    \/ /\ vol.named
       /\ Cardinality(AtPath(vol, path)) <= 1
       /\ AtPath(vol, path) = {} =>
            /\ Bare(path) # <<>>
            /\ \A d \in 1..Len(vol.dirs) : ~ SameIgnoringCase(Bare(path), vol.paths[d])
=============================================================================
