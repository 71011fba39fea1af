------------------------------ MODULE Printing ------------------------------
(* The commands that show what is on an image, `ls` and `dump`: what they   *)
(* print, given what the image's system says.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NL == 10

\* What the system says: opened; subdirs: it has subdirectories; ok: it lists
\* the directory (has the file); names: short and full names (full may be
\* empty); data: the file's contents, in pieces.
\* The command: cmd, short: short names asked for, dir: a directory was named.
Works(c, s) == s.opened /\ s.ok /\ (c.cmd = "ls" /\ c.dir => s.subdirs)

Shown(c, e) == IF c.short \/ e[2] = <<>> THEN e[1] ELSE e[2]
RECURSIVE Listing(_, _, _)
Listing(c, names, i) == IF i > Len(names) THEN <<>> ELSE Shown(c, names[i]) \o <<NL>> \o Listing(c, names, i + 1)

Output(c, s) == IF c.cmd = "ls" THEN Listing(c, s.names, 1) ELSE s.data

CP(cond, what) == IF cond THEN {} ELSE {<<"C24", what>>}

\* r: how it ended, rc, out: standard output, said: something on standard error.
PrintBad(c, s, r) ==
    IF r.how # "ok" THEN {<<"C24", c.cmd \o " did not return (" \o r.how \o ")">>}
    ELSE IF Works(c, s)
    THEN CP(r.rc = 0, c.cmd \o " failed on what the image's system shows")
         \cup CP(r.out = Output(c, s), c.cmd \o " did not print exactly what is on the image")
    ELSE UNION {CP(r.rc # 0, c.cmd \o " succeeded where there is nothing to show"),
                CP(r.out = <<>>, c.cmd \o " failed but printed something"),
                CP(r.said, c.cmd \o " failed without saying so")}
=============================================================================
