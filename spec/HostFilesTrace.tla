--------------------------- MODULE HostFilesTrace ---------------------------
(* C15: what commands run one after another did to a directory of files.    *)
(* NakedOS images among them are known in full (disks), so that the effect  *)
(* of put, rm and mkhello on them can be told.                              *)
EXTENDS Hello, TraceCommon

H == INSTANCE HostFiles
P == INSTANCE Opening

RealFileNums == 1..253
RealFileOf(a) == IF a \in 57089..57341 THEN a - 57088 ELSE 0
AllAsked == {"C04", "C05", "C06", "C07", "C08", "C09"}

\* files: name -> content; disks: name -> [order, disk] of the NakedOS images.
VARIABLES l, files, disks, bad
vars == <<l, files, disks, bad>>

C15(cond, what) == IF cond THEN {} ELSE {<<"C15", what>>}
As15(b) == {<<"C15", x[2]>> : x \in b}

DirOf(fs) == TLCEval([n \in {fs[k][1] : k \in 1..Len(fs)} |-> fs[CHOOSE k \in 1..Len(fs) : fs[k][1] = n][2]])

DiskOf(d) ==
    [order |-> d.order,
     disk |-> [own |-> d.own, sec |-> SecOf(d.own), con |-> d.con, head |-> d.head,
               tab |-> TLCEval([i \in {j \in Slots : d.sinv[j + 1] # 0} |->
                        SlotOf(d.dslots[d.sinv[i + 1]][2], d.dslots[d.sinv[i + 1]][3])]),
               st |-> Flag(d.st)]]

\* The NakedOS images after: e.disks are those that are new or changed,
\* e.gone the names that are none any more.
DisksAfter(e, had) ==
    LET new == {e.disks[k].file : k \in 1..Len(e.disks)}
        gone == {e.gone[k] : k \in 1..Len(e.gone)}
    IN TLCEval([n \in (DOMAIN had \ gone) \cup new |->
          IF n \in new THEN DiskOf(e.disks[CHOOSE k \in 1..Len(e.disks) : e.disks[k].file = n]) ELSE had[n]])

Force(e) == Flag(e.force)
CmdOf(e) == [cmd |-> e.cmd, image |-> e.image, target |-> e.target, force |-> Force(e)]
Ok(e) == e.rc = 0

\* The NakedOS image a command works on: the name it is known by, "" if none
\* or if it cannot be opened as one with these options.
Orders(e) == P!OrdersToTry(e.order, Extension(e.imagename))
SourceName(e) == IF e.image = "-" THEN e.stdin ELSE e.image
Naked(e) ==
    LET n == SourceName(e)
    IN IF n \notin DOMAIN disks \/ e.system # "auto" THEN ""
       ELSE IF \E k \in 1..Len(Orders(e)) : Orders(e)[k] = disks[n].order THEN n ELSE ""

\* The image after: the file's, or for "-" what was written out.
After(e, D) ==
    IF e.image = "-" THEN IF e.outdisk = <<>> THEN [order |-> "?"] ELSE DiskOf(e.outdisk[1])
    ELSE IF e.image \in DOMAIN D THEN D[e.image] ELSE [order |-> "?"]

PutOp(e) == [name |-> e.name, n |-> e.n, dlen |-> e.n, binary |-> Flag(e.binary), ow |-> Force(e), data |-> e.data]

Effect(e, S, D) ==
    LET T == After(e, D)
    IN IF Ok(e) /\ T.order # disks[Naked(e)].order THEN {<<"C15", "the image was not written in the order it was stored in">>}
       ELSE CASE e.cmd = "put" ->
                   IF ~ PutInContract(S, PutOp(e)) THEN {}
                   ELSE LET why == Reasons(S, PutOp(e)) \cup (IF Flag(e.readable) /\ Flag(e.typeok) THEN {} ELSE {<<"C15", "other">>})
                        IN IF ~ Ok(e) THEN C15(why # {}, "put was refused without a reason")
                           ELSE IF why # {} THEN {<<"C15", "put succeeded where it had to fail">>}
                           ELSE As15(PutBad(S, T.disk, PutOp(e), [how |-> "ok", err |-> FALSE, kind |-> "none",
                                            existed |-> Exists(S, FileWritten(S, T.disk, PutOp(e)))]))
              [] e.cmd = "rm" ->
                   IF ~ DeleteInContract(S, e.name) THEN {}
                   ELSE LET there == Resolve(S, e.name) # 0 /\ Exists(S, Resolve(S, e.name))
                        IN IF ~ Ok(e) THEN C15(~ there /\ ~ Force(e), "rm was refused without a reason")
                           ELSE C15(there \/ Force(e), "rm of a missing file succeeded")
                                \cup As15(DeleteBad(S, T.disk, e.name, [how |-> "ok", err |-> FALSE, existed |-> there]))
              [] e.cmd = "mkhello" ->
                   IF ~ RefInContract(e.name) \/ (S.st /\ Cardinality(SlotsNamed(S.tab, HelloName)) > 1) THEN {}
                   ELSE As15(HelloBad(S, IF Ok(e) THEN T.disk ELSE S, e.name, e.addr, e.start,
                                      [how |-> "ok", err |-> ~ Ok(e), same |-> TRUE, whole |-> TRUE], e.code))
              [] e.cmd = "dump" ->
                   LET f == Resolve(S, e.name)
                   IN IF ~ DeleteInContract(S, e.name) THEN {}
                      ELSE IF f = 0 \/ ~ Exists(S, f) THEN C15(~ Ok(e), "a file that does not exist was dumped")
                      ELSE C15(Ok(e) /\ e.data = ContentOf(S, f), "dump did not write out the file")

\* What has no NakedOS disk cannot be written to, and what is no disk image at
\* all cannot be opened.
Elsewhere(e) ==
    C15(e.cmd \in {"put", "rm", "mkhello"} => ~ Ok(e), "a change was reported of an image that cannot be changed")
    \cup C15(Flag(e.unopenable) => ~ Ok(e), "a command on a missing or unusable file succeeded")

CmdBad(e, G, D) ==
    LET c == CmdOf(e)
    IN IF e.how # "ok" THEN {<<"C15", "the command did not return (" \o e.how \o ")">>}
       ELSE UNION {
         C15(H!Untouched(c, files, G), "a command that only inspects changed a file"),
         C15(H!FailureKeeps(files, G, Ok(e)), "a command that failed changed a file"),
         C15(H!OnlyDestination(c, files, G, Ok(e)), "a file other than the one to write was changed"),
         C15(H!Guarded(c, files, Ok(e)), "an existing file was to be replaced without the force option"),
         C15(e.cmd = "usage" => ~ Ok(e), "a wrong command line succeeded"),
         C15(e.cmd \in {"reorder", "mksd"} /\ Ok(e) /\ H!Destination(c) # "-" => H!Destination(c) \in DOMAIN G, "the file to write was not written"),
         IF e.cmd \in {"put", "rm", "mkhello", "dump"} /\ Naked(e) # "" THEN Effect(e, disks[Naked(e)].disk, D)
         ELSE Elsewhere(e)}

NextOn(e) ==
    CASE e.ev = "dir" -> \E G \in {DirOf(e.files)} : \E D \in {DisksAfter(e, <<>>)} : files' = G /\ disks' = D /\ bad' = {}
      [] e.ev = "cmd" -> \E G \in {DirOf(e.files)} : \E D \in {DisksAfter(e, disks)} :
                           \E b \in {CmdBad(e, G, D)} : files' = G /\ disks' = D /\ bad' = b
      [] e.ev = "died" -> bad' = {<<"C15", "the operation " \o e.how>>} /\ UNCHANGED <<files, disks>>

TraceInit == l = 0 /\ files = <<>> /\ disks = <<>> /\ bad = {}
TraceNext == l < NumLines /\ l' = l + 1 /\ NextOn(Lines[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
