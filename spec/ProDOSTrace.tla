---------------------------- MODULE ProDOSTrace -----------------------------
(* C12 (and C03's recognition of ProDOS): what the real code listed from     *)
(* volumes given byte by byte.                                               *)
EXTENDS ProDOS, TraceCommon

VARIABLES l, img, vol, bad

Complain(p, cond, what) == IF p # Prop THEN {} ELSE IF cond THEN {} ELSE {<<p, what>>}

NoImg == [n |-> 0, blks |-> <<>>, secs |-> <<>>]
Img(e) == [n |-> e.n, blks |-> e.blks, secs |-> e.secs]

\* The blocks of the directory a settled path names: [ok, seq].
Dir(path) == IF path = <<>> THEN [ok |-> TRUE, seq |-> vol.root]
             ELSE IF AtPath(vol, path) = {} THEN [ok |-> FALSE, seq |-> <<>>]
             ELSE [ok |-> TRUE, seq |-> vol.dirs[CHOOSE d \in AtPath(vol, path) : TRUE].blocks]

CatalogBad(e) ==
    IF vol.open THEN {}
    ELSE IF ~ vol.valid THEN Complain("C12", Flag(e.err), "a volume with bad directories was listed")
    ELSE IF ~ Settled(vol, e.path) THEN {}
    ELSE LET d == Dir(e.path)
         IN IF ~ d.ok THEN Complain("C12", Flag(e.err), "a path that does not exist was listed")
            ELSE IF Flag(e.err) THEN Complain("C12", FALSE, "a directory was not listed")
            ELSE LET es == Listing(img, d.seq)
                 IN IF Len(e.descs) # Len(es) THEN Complain("C12", FALSE, "not every active entry is listed once")
                    ELSE UNION {
                      Complain("C12", \A k \in 1..Len(es) : e.descs[k].name = EntryName(es[k]), "an entry is listed under another name or place"),
                      Complain("C12", \A k \in 1..Len(es) : e.descs[k].type = FileType(es[k]), "a type is wrong"),
                      Complain("C12", \A k \in 1..Len(es) : e.descs[k].blocks = BlocksUsed(es[k]), "a block count is wrong"),
                      Complain("C12", \A k \in 1..Len(es) : e.descs[k].length = EOFOf(es[k]), "a length is wrong")}

\* diskii ls.  (Names with control characters are not judged.)
LsBad(e) ==
    IF vol.open THEN {}
    ELSE IF ~ vol.valid THEN Complain("C12", e.rc # 0, "a volume with bad directories was listed")
    ELSE IF ~ Settled(vol, e.path) THEN {}
    ELSE LET d == Dir(e.path)
         IN IF ~ d.ok THEN Complain("C12", e.rc # 0, "a path that does not exist was listed")
            ELSE LET es == Listing(img, d.seq)
                 IN IF \E k \in 1..Len(es) : \E i \in 1..Len(EntryName(es[k])) : EntryName(es[k])[i] = 10 THEN {}
                    ELSE Complain("C12", e.rc = 0 /\ Len(e.lines) = Len(es) /\ \A k \in 1..Len(es) : e.lines[k] = EntryName(es[k]),
                                  "the listing is not the directory's active entries in order")

\* Whether the content is recognised as a ProDOS volume.
SeemsBad(e) == IF vol.open THEN {}
               ELSE Complain("C03", Flag(e.seems) = vol.valid, "content was recognised as ProDOS wrongly, or not recognised")

Judge(e) ==
    IF e.ev = "image" THEN {}
    ELSE IF e.ev = "died" THEN {<<p, "the operation " \o e.how>> : p \in {"C12", "C03"}}
    ELSE IF e.how # "ok" THEN {<<p, "the operation did not return (" \o e.how \o ")">> : p \in {"C12", "C03"}}
    ELSE CASE e.ev = "catalog" -> CatalogBad(e)
           [] e.ev = "ls" -> LsBad(e)
           [] e.ev = "seems" -> SeemsBad(e)

TraceInit == l = 0 /\ img = NoImg /\ vol = NoVolume /\ bad = {}
TraceNext == /\ l < NumLines /\ l' = l + 1
             /\ \E e \in {Lines[l + 1]} :
                  IF e.ev = "image"
                  THEN \E i \in {Img(e)} : \E v \in {VolumeOf(i)} : img' = i /\ vol' = v /\ bad' = {}
                  ELSE UNCHANGED <<img, vol>> /\ \E b \in {Judge(e)} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, img, vol, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
