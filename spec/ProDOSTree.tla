----------------------------- MODULE ProDOSTree -----------------------------
(* The directories of a ProDOS volume, as a reader finds them: from the      *)
(* volume directory down through subdirectory entries, named by their        *)
(* headers, placed under the directory their parent pointers name.           *)
(*                                                                           *)
(* A volume's shape V is what the reader uses of each block b:               *)
(*   V.n          number of blocks                                           *)
(*   V.at         the blocks that are not blank (functions' domain)          *)
(*   V.next[b]    pointer to the next block of the directory                 *)
(*   V.keysubs[b] key pointers of the subdirectory entries, as a key block   *)
(*   V.blksubs[b] the same, as a later block                                 *)
(*   V.name[b], V.parent[b]  name and parent pointer of the header           *)
EXTENDS Integers, Sequences, FiniteSets, Chains, TLC

VolKey == 2

NextOf(V, b) == IF b \in V.at THEN V.next[b] ELSE 0
KeySubs(V, b) == IF b \in V.at THEN V.keysubs[b] ELSE <<>>
BlkSubs(V, b) == IF b \in V.at THEN V.blksubs[b] ELSE <<>>
NameAt(V, b) == IF b \in V.at THEN V.name[b] ELSE <<>>
ParentAt(V, b) == IF b \in V.at THEN V.parent[b] ELSE 0

\* The blocks of the directory with key block k, none of which may be part of
\* another directory: [ok, seq].  (Block 0 can be a key block, but pointing to
\* it ends a chain.)
DirBlocksApart(V, k, seen) ==
    IF k >= V.n \/ k \in seen THEN [ok |-> FALSE, seq |-> <<>>]
    ELSE Walk(NextOf(V, k), 0, LAMBDA b : b < V.n, LAMBDA b : NextOf(V, b), seen \cup {k}, <<k>>)
DirBlocks(V, k) == DirBlocksApart(V, k, {})

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
SubsOf(V, blocks) == Flat([i \in 1..Len(blocks) |-> IF i = 1 THEN KeySubs(V, blocks[i]) ELSE BlkSubs(V, blocks[i])], 1)

\* All subdirectories reachable by entries, each once: [ok, dirs], dirs a
\* sequence of [key, blocks].
RECURSIVE Gather(_, _, _, _, _)
Gather(V, queue, i, dirs, seen) ==
    IF i > Len(queue) THEN [ok |-> TRUE, dirs |-> dirs]
    ELSE IF \E j \in 1..Len(dirs) : dirs[j].key = queue[i] THEN Gather(V, queue, i + 1, dirs, seen)
    ELSE LET c == DirBlocksApart(V, queue[i], seen)
         IN IF ~ c.ok THEN [ok |-> FALSE, dirs |-> dirs]
            ELSE Gather(V, queue \o SubsOf(V, c.seq), i + 1, Append(dirs, [key |-> queue[i], blocks |-> c.seq]),
                        seen \cup {c.seq[j] : j \in 1..Len(c.seq)})

\* The volume as read: [ok, root (blocks), dirs].
Read(V) ==
    LET c == DirBlocks(V, VolKey)
    IN IF ~ c.ok THEN [ok |-> FALSE, root |-> <<>>, dirs |-> <<>>]
       ELSE LET g == Gather(V, SubsOf(V, c.seq), 1, <<>>, {c.seq[j] : j \in 1..Len(c.seq)})
            IN [ok |-> g.ok, root |-> c.seq, dirs |-> g.dirs]

Holds(blocks, b) == \E i \in 1..Len(blocks) : blocks[i] = b
\* The directories (0: the volume's) that block b is part of: one at most.
Owners(R, b) == {d \in 0..Len(R.dirs) : IF d = 0 THEN Holds(R.root, b) ELSE Holds(R.dirs[d].blocks, b)}

\* The directory a subdirectory lies in: 0 the volume's, -1 none.
Parent(V, R, d) ==
    LET o == Owners(R, ParentAt(V, R.dirs[d].key)) IN IF o = {} THEN -1 ELSE CHOOSE x \in o : TRUE
\* All of them at once.
Parents(V, R) == TLCEval([d \in 1..Len(R.dirs) |-> Parent(V, R, d)])

\* The ancestors of d up to the volume: [ok, seq] (d first).
RECURSIVE Up(_, _, _)
Up(P, d, acc) ==
    IF d = 0 THEN [ok |-> TRUE, seq |-> acc]
    ELSE IF d = -1 \/ Holds(acc, d) THEN [ok |-> FALSE, seq |-> acc]
    ELSE Up(P, P[d], Append(acc, d))

\* The structures of a volume are valid.  (P: Parents.)
ValidTree(R, P) == R.ok /\ \A d \in 1..Len(R.dirs) : Up(P, d, <<>>).ok

\* How deep the deepest directory is.
Depths(R, P) == {Len(Up(P, d, <<>>).seq) : d \in 1..Len(R.dirs)}

\* The path of subdirectory d, as a sequence of names, outermost first.
PathOf(V, R, P, d) ==
    LET u == Up(P, d, <<>>).seq
    IN [i \in 1..Len(u) |-> NameAt(V, R.dirs[u[Len(u) + 1 - i]].key)]
=============================================================================
