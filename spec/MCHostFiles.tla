---------------------------- MODULE MCHostFiles -----------------------------
(* Commands run one after another on a directory, each in its phases: the   *)
(* arguments are looked at, the image is read, worked on in memory, and     *)
(* written; any phase can fail.  What was promised holds for every history. *)
EXTENDS HostFiles, TLC, Sequences, Json

CONSTANTS Names, Contents, MaxCommands, Gen

VARIABLES files, was, c, phase, mem, n
vars == <<files, was, c, phase, mem, n>>

Cmds == [cmd : Commands, image : Names \cup {"-"}, target : Names \cup {"-", ""}, force : BOOLEAN]
Useful == {x \in Cmds : /\ x.cmd \in Modifying \cup Inspecting => x.target = ""
                        /\ x.cmd = "mksd" => x.target # "" /\ x.image = "-"
                        /\ x.cmd \in {"filetypes", "usage"} => x.image = "-"
                        /\ x.cmd \notin {"reorder"} => ~ x.force}
Dirs == UNION {[D -> Contents] : D \in SUBSET Names}
None == [cmd |-> "usage", image |-> "-", target |-> "", force |-> FALSE]

Init == files \in Dirs /\ was = files /\ c = None /\ phase = "done" /\ mem = 0 /\ n = 0

Begin == /\ phase \in {"done", "failed"} /\ n < MaxCommands
         /\ c' \in Useful /\ phase' = "check" /\ was' = files /\ n' = n + 1
         /\ mem' = 0 /\ UNCHANGED files
Fail == phase' = "failed" /\ UNCHANGED <<files, was, c, mem, n>>
Check == phase = "check" /\ phase' = "read" /\ UNCHANGED <<files, was, c, mem, n>>
Read == /\ phase = "read"
        /\ IF c.image # "-" /\ c.image \notin DOMAIN files /\ c.cmd # "mksd" THEN Fail
           ELSE /\ mem' \in (IF c.image \in DOMAIN files THEN {files[c.image]} ELSE Contents)
                /\ phase' = "work" /\ UNCHANGED <<files, was, c, n>>
Work == /\ phase = "work"
        /\ IF c.cmd \in Inspecting THEN mem' = mem /\ phase' = "done" ELSE mem' \in Contents /\ phase' = "write"
        /\ UNCHANGED <<files, was, c, n>>
Write == /\ phase = "write"
         /\ IF NeedsForce(c, files) /\ ~ c.force THEN Fail
            ELSE /\ files' = IF Destination(c) = "-" THEN files ELSE Destination(c) :> mem @@ files
                 /\ phase' = "done" /\ UNCHANGED <<was, c, mem, n>>
CanFail == phase \in {"check", "read", "work"} /\ Fail
Next == Begin \/ Check \/ Read \/ Work \/ Write \/ CanFail
Spec == Init /\ [][Next]_vars

Promise == phase \in {"done", "failed"} /\ n > 0 => Promised(c, was, files, phase = "done")
\* Until the write nothing is changed, so that it does not matter where it fails.
WritesLast == [][files' # files => phase = "write" /\ phase' = "done"]_vars
Undisturbed == phase \notin {"done", "failed"} => files = was

----------------------------------------------------------------------------
(* The command lines to try.  Kinds of images and of names are filled in by *)
(* the driver.                                                              *)
Images == {"nakdo", "nakpo", "nakdsk", "dos", "prodos", "hdv", "junk", "empty", "missing", "dir", "-"}
OrderOpts == {"auto", "right", "wrong"}
ASSUME Gen =>
    /\ \A i \in Images : \A o \in OrderOpts : \A s \in {"auto", "dos3"} : \A nm \in {"old", "number", "new", "bad"} :
         (s = "auto" \/ nm \in {"old", "new"}) =>
              /\ PrintT("CMD " \o ToJson([cmd |-> "dump", image |-> i, order |-> o, system |-> s, name |-> nm]))
              /\ \A f \in BOOLEAN : PrintT("CMD " \o ToJson([cmd |-> "rm", image |-> i, order |-> o, system |-> s, name |-> nm, force |-> f]))
              /\ \A f \in BOOLEAN : \A src \in {"file", "-", "missing", "emptyfile", "big", "text"} :
                   (s = "auto" \/ src = "file") /\ (o = "auto" \/ src \in {"file", "-"}) =>
                     PrintT("CMD " \o ToJson([cmd |-> "put", image |-> i, order |-> o, system |-> s, name |-> nm, source |-> src, force |-> f]))
    /\ \A i \in Images : \A o \in OrderOpts :
         /\ PrintT("CMD " \o ToJson([cmd |-> "ls", image |-> i, order |-> o]))
         /\ \A nm \in {"old", "number", "new", "bad"} : \A a \in {"good", "unaligned", "before"} :
              PrintT("CMD " \o ToJson([cmd |-> "mkhello", image |-> i, order |-> o, name |-> nm, address |-> a]))
         /\ \A p \in {"auto", "right", "wrong"} : \A f \in BOOLEAN :
              \A t \in {"", "new", "newpo", "same", "exists", "existsdir", "nodir", "-"} :
                PrintT("CMD " \o ToJson([cmd |-> "reorder", image |-> i, order |-> o, neworder |-> p, force |-> f, target |-> t]))
    /\ \A t \in {"new", "exists", "existsdir", "nodir", "-"} : \A src \in {"file", "-", "missing", "emptyfile", "big"} : \A a \in {"good", "unaligned", "before"} :
         PrintT("CMD " \o ToJson([cmd |-> "mksd", target |-> t, source |-> src, address |-> a]))
    /\ \A src \in {"file", "basic", "-", "missing"} : \A f \in BOOLEAN : PrintT("CMD " \o ToJson([cmd |-> "decode", source |-> src, force |-> f]))
    /\ \A f \in BOOLEAN : PrintT("CMD " \o ToJson([cmd |-> "filetypes", force |-> f]))
    /\ \A k \in 1..8 : PrintT("CMD " \o ToJson([cmd |-> "usage", source |-> ToString(k)]))
=============================================================================
