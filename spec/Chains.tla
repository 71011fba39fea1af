------------------------------- MODULE Chains -------------------------------
(* Following a chain of on-disk pointers: catalog sectors, track/sector      *)
(* lists, directory blocks.  A pointer names a place, ends the chain, or     *)
(* leaves the disk.  A chain is good if it ends without leaving the disk or  *)
(* coming back to a place; then its places are read in order.  This is what  *)
(* the byte-level specifications (Dos33, ProDOS) use; here the walk is a     *)
(* state machine, checked on all small graphs of pointers, which TLC also    *)
(* prints for the drivers to build images from.                              *)
EXTENDS Integers, Sequences, FiniteSets

\* The walk as a function: [ok, seq].  Next(p) is the pointer stored at p.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(p, End, Legal(_), Next(_), seen, acc) ==
    IF p = End THEN [ok |-> TRUE, seq |-> acc]
    ELSE IF ~ Legal(p) \/ p \in seen THEN [ok |-> FALSE, seq |-> acc]
    ELSE Walk(Next(p), End, Legal, Next, seen \cup {p}, Append(acc, p))

Chain(p, End, Legal(_), Next(_)) == Walk(p, End, Legal, Next, {}, <<>>)
=============================================================================
