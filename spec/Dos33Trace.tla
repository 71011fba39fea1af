----------------------------- MODULE Dos33Trace -----------------------------
(* C10 and C11 (and C03's recognition of DOS 3.3): what the real code read   *)
(* from disk images given byte by byte.                                      *)
EXTENDS Dos33, TraceCommon

VARIABLES l, img, bad

Complain(p, cond, what) == IF p # Prop THEN {} ELSE IF cond THEN {} ELSE {<<p, what>>}

NoImg == [at |-> <<>>, secs |-> <<>>]
Img(e) == [at |-> e.at, secs |-> e.secs]

\* A list of <<name, ...>> agrees with entries; names of entries that are not plain are open.
SameNames(got, es) == \A k \in 1..Len(es) : Plain(es[k]) => got[k].name = NameOf(es[k])

ReadCatalogBad(e) ==
    IF ~ ValidDisk(img) THEN {}
    ELSE LET fs == Files(img)
             ds == DeletedFiles(img)
         IN IF Flag(e.err) THEN Complain("C10", FALSE, "a valid catalog was not read")
            ELSE UNION {
              Complain("C10", Len(e.files) = Len(fs), "not every live entry is listed once"),
              Complain("C10", Len(e.deleted) = Len(ds), "not every deleted entry is reported once"),
              IF Len(e.files) # Len(fs) \/ Len(e.deleted) # Len(ds) THEN {}
              ELSE UNION {
                Complain("C10", SameNames(e.files, fs), "a file is listed under another name or place"),
                Complain("C10", SameNames(e.deleted, ds), "a deleted file is reported under another name or place"),
                Complain("C10", \A k \in 1..Len(fs) : e.files[k].sectors = SectorCount(fs[k]), "a sector count is wrong"),
                Complain("C10", \A k \in 1..Len(fs) : e.files[k].raw = At(fs[k], 2), "a type byte is wrong")}}

CatalogBad(e) ==
    IF ~ ValidDisk(img) THEN {}
    ELSE LET fs == Files(img)
         IN IF Flag(e.err) THEN Complain("C10", FALSE, "a valid catalog was not listed")
            ELSE IF Len(e.descs) # Len(fs) THEN Complain("C10", FALSE, "not every live entry is listed once")
            ELSE UNION {
                Complain("C10", SameNames(e.descs, fs), "a file is listed under another name or place"),
                Complain("C10", \A k \in 1..Len(fs) : TypeOf(fs[k]) # -1 => e.descs[k].type = TypeOf(fs[k]), "a type is wrong"),
                Complain("C10", \A k \in 1..Len(fs) : Flag(e.descs[k].locked) = IsLocked(fs[k]), "a lock state is wrong"),
                Complain("C10", \A k \in 1..Len(fs) : e.descs[k].sectors = SectorCount(fs[k]), "a sector count is wrong")}

\* diskii ls: one line per live file.  (Names with line feeds are not judged.)
LsBad(e) ==
    IF ~ ValidDisk(img) \/ e.rc = -2 THEN {}
    ELSE LET fs == Files(img)
         IN IF \E k \in 1..Len(fs) : ~ Plain(fs[k]) \/ \E i \in 1..Len(NameOf(fs[k])) : NameOf(fs[k])[i] = 10 THEN {}
            ELSE Complain("C10", e.rc = 0 /\ Len(e.lines) = Len(fs) /\ \A k \in 1..Len(fs) : e.lines[k] = NameOf(fs[k]),
                          "the listing is not the live files in catalog order")

\* The entry a name stands for: the first live one of that name.
Named(fs, name) == {k \in 1..Len(fs) : Plain(fs[k]) /\ NameOf(fs[k]) = name}
First(S) == CHOOSE k \in S : \A j \in S : k <= j

\* Whether the answer is settled: no name of open appearance comes before.
Settled(fs, name) ==
    LET n == Named(fs, name)
        last == IF n = {} THEN Len(fs) ELSE First(n)
    IN \A k \in 1..last : Plain(fs[k])

GetBad(e) ==
    IF ~ ValidDisk(img) THEN Complain("C11", Flag(e.err), "a file was read from a disk without a valid catalog")
    ELSE LET fs == Files(img)
             n == Named(fs, e.name)
         IN IF ~ Settled(fs, e.name) THEN {}
            ELSE IF n = {} THEN Complain("C11", Flag(e.err), "a file that is not in the catalog was read")
            ELSE LET f == FileOf(img, fs[First(n)])
                 IN IF ~ f.ok THEN Complain("C11", Flag(e.err), "a file that cannot be read did not give an error")
                    ELSE IF Flag(e.err) THEN Complain("C11", FALSE, "a good file was not read")
                    ELSE UNION {
                      Complain("C11", e.data = f.data, "the file's data is not what its track/sector lists and length say"),
                      Complain("C11", f.start = -1 \/ e.start = -1 \/ e.start = f.start, "the load address is wrong"),
                      Complain("C11", e.length \in {-1, Len(f.data)}, "the length reported is not the data's"),
                      Complain("C11", e.type \in {-1, TypeOf(fs[First(n)])}, "the type reported is not the file's")}

\* Whether the content is recognised as a DOS 3.3 disk.
SeemsBad(e) == Complain("C03", Flag(e.seems) = ValidDisk(img), "content was recognised as DOS 3.3 wrongly, or not recognised")

Judge(e) ==
    IF e.ev = "image" THEN {}
    ELSE IF e.ev = "died" THEN {<<p, "the operation " \o e.how>> : p \in {"C10", "C11", "C03"}}
    ELSE IF e.how # "ok" THEN {<<p, "the operation did not return (" \o e.how \o ")">> : p \in {"C10", "C11", "C03"}}
    ELSE CASE e.ev = "readcatalog" -> ReadCatalogBad(e)
           [] e.ev = "catalog" -> CatalogBad(e)
           [] e.ev = "ls" -> LsBad(e)
           [] e.ev = "get" -> GetBad(e)
           [] e.ev = "seems" -> SeemsBad(e)

TraceInit == l = 0 /\ img = NoImg /\ bad = {}
TraceNext == /\ l < NumLines /\ l' = l + 1
             /\ \E e \in {Lines[l + 1]} :
                  /\ img' = IF e.ev = "image" THEN Img(e) ELSE img
                  /\ \E b \in {Judge(e)} : bad' = b
TraceSpec == TraceInit /\ [][TraceNext]_<<l, img, bad>>
LineView == l
Conforms == Verdict(l, bad)
=============================================================================
