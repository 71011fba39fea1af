----------------------------- MODULE HostFiles ------------------------------
(* What commands may do to the files of the host.  A directory F gives each *)
(* name its content (any value); "-" is the standard input or output, not a *)
(* file.  A command c has c.cmd, c.image, c.target (for reorder and mksd    *)
(* the file to write, "" if not given) and c.force.                         *)
EXTENDS Naturals

Inspecting == {"ls", "dump", "filetypes", "decode", "usage"}
Modifying == {"put", "rm", "mkhello"}
Commands == Inspecting \cup Modifying \cup {"reorder", "mksd"}

\* The file a command is told to write; "-" if none.
Destination(c) ==
    CASE c.cmd \in Modifying -> c.image
      [] c.cmd = "reorder" -> IF c.target = "" THEN c.image ELSE c.target
      [] c.cmd = "mksd" -> c.target
      [] OTHER -> "-"

Changed(F, G) == {n \in DOMAIN F \cup DOMAIN G : n \notin DOMAIN F \/ n \notin DOMAIN G \/ F[n] # G[n]}

\* An explicitly named output of reorder that exists needs the force option.
NeedsForce(c, F) == c.cmd = "reorder" /\ c.target \notin {"", "-"} /\ c.target \in DOMAIN F

\* The promise, for directories F before and G after, and whether it succeeded.
Untouched(c, F, G) == c.cmd \in Inspecting => Changed(F, G) = {}
FailureKeeps(F, G, ok) == ~ ok => Changed(F, G) = {}
OnlyDestination(c, F, G, ok) == ok => Changed(F, G) \subseteq ({Destination(c)} \ {"-"})
Guarded(c, F, ok) == NeedsForce(c, F) /\ ~ c.force => ~ ok
Promised(c, F, G, ok) ==
    Untouched(c, F, G) /\ FailureKeeps(F, G, ok) /\ OnlyDestination(c, F, G, ok) /\ Guarded(c, F, ok)
=============================================================================
