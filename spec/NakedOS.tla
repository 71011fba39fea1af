------------------------------ MODULE NakedOS ------------------------------
(* NakedOS disks.  A disk is 560 sectors, each owned by a file (1..253),    *)
(* reserved (254) or free (255) according to the sector map, which itself   *)
(* lives in reserved sectors.  A file is the set of sectors it owns, read   *)
(* in disk order.  Names are kept in the Super-Mon symbol table (files 3    *)
(* and 4), which gives the address $DF00+n to the name of file n.           *)
(*                                                                          *)
(* This module states, for each operation, what is promised about the disk  *)
(* before and after it, one set of complaints per property.  NakedOSModel   *)
(* checks the promises on a constructive model, exhaustively;  NakedOSTrace *)
(* checks them on what the real code did.                                   *)
EXTENDS SymbolTable

CONSTANTS NumSectors,          \* 560
          FileNums,            \* 1..253
          MapPos,              \* the sectors holding the sector map
          SecBytes,            \* 256
          Sym1, Sym2,          \* 3 and 4, the symbol-table files
          NamesFile(_),        \* the file a symbol address stands for, or 0
          Asked                \* the properties complaints are wanted about

Pos == 1..NumSectors           \* sector numbers, counted from 1
Free == 255
Reserved == 254
FileAddr(f) == 57088 + f       \* $DF00 + f

(* A disk state S: S.own, S.con: sector -> owner, content; S.head: what     *)
(* precedes the map in the map's first sector; S.tab: symbol table;         *)
(* S.st: whether there is a usable table.                                   *)

\* S.sec: the sectors each owner has (derived from S.own, kept for speed).
SecOf(own) == TLCEval([f \in {own[p] : p \in Pos} |-> {p \in Pos : own[p] = f}])
SectorsOf(S, f) == IF f \in DOMAIN S.sec THEN S.sec[f] ELSE {}
Exists(S, f) == f \in DOMAIN S.sec
ContentOf(S, f) == Pick(S.con, SectorsOf(S, f))
FreeOf(S) == SectorsOf(S, Free)
UsedNums(S) == DOMAIN S.sec \cap FileNums
LowestUnused(S) == IF UsedNums(S) = FileNums THEN 0 ELSE MinOf(FileNums \ UsedNums(S))

----------------------------------------------------------------------------
(* Names given by users.                                                    *)

\* DFxx or xx, xx in 01..FD: a file number; otherwise 0.
NumberOf(nm) ==
    LET v == HexNumber(nm)
    IN IF v \in 57089..57341 THEN v - 57088 ELSE IF v \in 1..253 THEN v ELSE 0

SymFile(S, nm) ==
    LET I == SlotsNamed(S.tab, nm)
    IN IF ~ S.st \/ I = {} THEN 0 ELSE NamesFile(S.tab[MinOf(I)].addr)

\* The file a name stands for; 0 if none.
Resolve(S, nm) == IF NumberOf(nm) # 0 THEN NumberOf(nm) ELSE SymFile(S, nm)

Colon == 58

\* What a put's target name asks for: the file to write (0: a new one), and
\* the name to give it (<<>>: none).  bad: not a usable name.
Target(S, nm) ==
    LET C == Occurrences(nm, Colon)
        c == CHOOSE i \in C : TRUE
        left == SubSeq(nm, 1, c - 1)
        right == SubSeq(nm, c + 1, Len(nm))
    IN IF Cardinality(C) > 1 THEN [bad |-> TRUE, file |-> 0, name |-> <<>>]
       ELSE IF C = {}
       THEN IF NumberOf(nm) # 0
            THEN [bad |-> FALSE, file |-> NumberOf(nm), name |-> <<>>]
            ELSE [bad |-> ~ Storable(nm), file |-> SymFile(S, nm), name |-> nm]
       ELSE [bad |-> NumberOf(left) = 0 \/ NumberOf(right) # 0 \/ ~ Storable(right),
             file |-> NumberOf(left), name |-> right]

----------------------------------------------------------------------------
(* Complaints <<property, what is wrong>> about one operation.              *)

Complain(P, cond, what) ==
    IF P \cap Asked = {} THEN {} ELSE IF cond THEN {} ELSE {<<p, what>> : p \in P}

Unchanged(S, T) == S.own = T.own /\ S.con = T.con /\ S.head = T.head

\* Only sectors in scope may change; only owners in may may change hands.
FrameBad(S, T, mine) ==
    IF "C05" \notin Asked THEN {} ELSE
    LET scope == mine \cup {Free}
        moved == {p \in Pos : S.own[p] # T.own[p]}
        written == {p \in Pos : S.con[p] # T.con[p]}
    IN UNION {
     Complain({"C05"}, S.head = T.head, "the part of the sector before the sector map changed"),
     Complain({"C05"}, \A p \in moved : S.own[p] \in scope,
                     "another file's or a reserved sector changed hands"),
     Complain({"C05"}, \A p \in written : S.own[p] \in scope \/ p \in MapPos,
                     "another file's or a reserved sector was overwritten"),
     Complain({"C05"}, \A p \in moved : T.own[p] \in scope,
                     "a sector was given to a file that was not operated on")}

TableBad(S, T) ==
    IF ~ S.st \/ (T.st /\ S.tab = T.tab) THEN {} ELSE
    UNION {Complain({"C09"}, T.st, "the symbol table can no longer be read"),
     Complain({"C09"}, T.st => LinksJoinLive(T.tab), "a link does not join two live symbols of one hash class"),
     Complain({"C09"}, T.st => LinkedOnce(T.tab), "a symbol is linked from two others"),
     Complain({"C09"}, (T.st /\ LinksJoinLive(T.tab)) => NoCycle(T.tab), "links form a cycle"),
     Complain({"C09"}, (T.st /\ LinksJoinLive(T.tab)) => ChainsKept(S.tab, T.tab), "symbols chained before are no longer chained")}

\* The names other than nm that resolved before still do, to the same file.
NamesKeptBad(S, T, nm) ==
    Complain({"C08"}, S.st => UnrelatedKept(S.tab, T.tab, nm), "another name changed its meaning")
    \cup Complain({"C09"}, S.st => UnrelatedKept(S.tab, T.tab, nm), "an unrelated symbol changed")

TableSame(S, T) ==
    /\ S.st = T.st
    /\ S.st => DOMAIN S.tab = DOMAIN T.tab /\ \A i \in DOMAIN S.tab : S.tab[i] = T.tab[i]

(* Reasons for refusing a put: <<properties that say so, error kind>>.      *)
\* op: [name, n, dlen, binary, ow, data]
Reasons(S, op) ==
    LET t == Target(S, op.name)
        f == IF t.file # 0 THEN t.file ELSE LowestUnused(S)
        need == CeilDiv(op.n, SecBytes)
        have == IF f = 0 THEN 0 ELSE Cardinality(SectorsOf(S, f))
        adds == t.name # <<>> /\ (SymFile(S, t.name) # f)
    IN UNION {
         IF t.bad THEN {<<"C07", "other">>, <<"C08", "other">>} ELSE {},
         IF t.name # <<>> /\ ~ S.st THEN {<<"C08", "other">>} ELSE {},
         IF ~ op.binary THEN {<<"C07", "other">>} ELSE {},
         IF op.dlen # op.n THEN {<<"C07", "other">>} ELSE {},
         IF op.n = 0 THEN {<<"C04", "other">>} ELSE {},
         IF f = 0 THEN {<<"C06", "other">>} ELSE {},
         IF f # 0 /\ need > Cardinality(FreeOf(S)) + have THEN {<<"C06", "space">>} ELSE {},
         IF f # 0 /\ have > 0 /\ ~ op.ow THEN {<<"C07", "exists">>} ELSE {},
         IF f # 0 /\ ~ t.bad /\ adds /\ S.st /\ TableFull(S.tab, t.name) THEN {<<"C09", "other">>} ELSE {}}

(* Puts onto the symbol-table files themselves are outside the contract, as *)
(* is an empty name (part).                                                 *)
PutInContract(S, op) ==
    LET t == Target(S, op.name) IN
    /\ ~ (S.st /\ t.file \in {Sym1, Sym2})
    /\ op.name # <<>> /\ ~ (Len(op.name) > 0 /\ op.name[Len(op.name)] = Colon)
    /\ (S.st => Cardinality(SlotsNamed(S.tab, t.name)) <= 1)

\* The file a successful put wrote: the one asked for, or the one that is new.
FileWritten(S, T, op) ==
    LET t == Target(S, op.name)
        new == UsedNums(T) \ UsedNums(S)
    IN IF t.file # 0 THEN t.file
       ELSE IF Cardinality(new) = 1 THEN CHOOSE f \in new : TRUE ELSE 0

\* res: [how, err, kind, existed]
PutBad(S, T, op, res) ==
    LET t == Target(S, op.name)
        why == Reasons(S, op)
        blame == {r[1] : r \in why}
        f == FileWritten(S, T, op)
        was == IF t.file # 0 THEN Cardinality(SectorsOf(S, t.file)) ELSE 0
        need == CeilDiv(op.n, SecBytes)
        adds == t.name # <<>> /\ SymFile(S, t.name) # f
        named == IF t.name # <<>> THEN {"C08"} ELSE {}
        over == IF was > 0 THEN {"C07"} ELSE {}
    IN IF ~ PutInContract(S, op) THEN {}
       ELSE IF res.how # "ok"
       THEN {<<p, "put did not return (" \o res.how \o ")">> : p \in {"C04", "C06"} \cup blame}
       ELSE IF res.err
       THEN UNION {Complain({"C06"} \cup named \cup over, why # {}, "put was refused without a reason"),
             Complain({"C07"}, res.kind # "exists" \/ t.bad \/ was > 0, "a put was refused because of a file that is not there"),
             Complain({"C05", "C06", "C07"} \cup blame, Unchanged(S, T), "a refused put changed the image"),
             FrameBad(S, T, {}),
             Complain({"C09"}, TableSame(S, T), "a refused put changed the symbol table"),
             Complain(blame, why # {} => \E r \in why : r[2] = res.kind, "a put was refused with the wrong kind of error")}
       ELSE UNION {
             {<<p, "put succeeded where it had to be refused">> : p \in blame},
             IF why # {} THEN {}
             ELSE UNION {
              Complain({"C06"} \cup named, f # 0, "a put by new name did not create exactly one file"),
              IF f = 0 THEN {} ELSE UNION {
               Complain({"C04"}, ContentOf(T, f) = op.data, "the stored bytes are not those put"),
               Complain({"C06"}, Cardinality(SectorsOf(T, f)) = need, "the file does not own the sectors its length needs"),
               Complain({"C06"}, Cardinality(FreeOf(T)) = Cardinality(FreeOf(S)) + was - need, "free space changed by something else"),
               Complain({"C06"}, t.file # 0 \/ f = LowestUnused(S), "a new name did not take the lowest unused file number"),
               Complain({"C07"}, res.existed = (was > 0), "put misreported whether the file existed"),
               Complain(over, ContentOf(T, f) = op.data, "the new contents did not completely replace the old"),
               FrameBad(S, T, {f} \cup (IF adds THEN {Sym1, Sym2} ELSE {})),
               TableBad(S, T),
               IF t.name = <<>>
               THEN Complain({"C09", "C08"}, TableSame(S, T), "a put by number changed the symbol table")
               ELSE UNION {Complain({"C08"}, Resolve(T, t.name) = f, "the name does not resolve to the file just put"),
                     NamesKeptBad(S, T, t.name),
                     Complain({"C09"}, Added(S.tab, T.tab, t.name, FileAddr(f)), "the table does not hold exactly the symbols it should"),
                     Complain({"C09"}, adds => LinkedIn(S.tab, T.tab, t.name, FileAddr(f)), "a new symbol is not linked into its hash class")}}}}

DeleteInContract(S, nm) ==
    /\ nm # <<>> /\ Occurrences(nm, Colon) = {}
    /\ ~ (S.st /\ Resolve(S, nm) \in {Sym1, Sym2})

\* res: [how, err, existed]
DeleteBad(S, T, nm, res) ==
    LET f == Resolve(S, nm)
        byName == NumberOf(nm) = 0
        drops == S.st /\ byName /\ SlotsNamed(S.tab, nm) # {}
        was == Cardinality(SectorsOf(S, f))
        namedP == IF byName THEN {"C08"} ELSE {}
    IN IF ~ DeleteInContract(S, nm) THEN {}
       ELSE IF res.how # "ok"
       THEN {<<p, "delete did not return (" \o res.how \o ")">> : p \in {"C05", "C06"}}
       ELSE IF f = 0
       THEN Complain({"C08"}, ~ res.err /\ ~ res.existed, "deleting an unknown name did not report false")
            \cup Complain({"C05", "C08"}, Unchanged(S, T), "deleting an unknown name changed the image")
            \cup Complain({"C09"}, TableSame(S, T), "deleting an unknown name changed the symbol table")
       ELSE UNION {
            Complain({"C06"} \cup namedP, ~ res.err, "delete failed"),
            Complain({"C06"}, ~ res.err => res.existed = (was > 0), "delete misreported whether the file existed"),
            Complain({"C06"}, ~ Exists(T, f), "the deleted file still owns sectors"),
            Complain({"C06"}, Cardinality(FreeOf(T)) = Cardinality(FreeOf(S)) + was, "delete did not free exactly the file's sectors"),
            FrameBad(S, T, {f} \cup (IF drops THEN {Sym1, Sym2} ELSE {})),
            TableBad(S, T),
            IF ~ drops \/ was = 0 THEN {}
            ELSE Complain({"C08"}, SlotsNamed(T.tab, nm) = {}, "deleting by name left the name"),
            IF drops THEN NamesKeptBad(S, T, nm)
            ELSE Complain({"C09", "C08"}, TableSame(S, T), "delete by number changed the symbol table"),
            IF drops /\ was > 0 THEN Complain({"C09"}, Removed(S.tab, T.tab, nm), "the table does not hold exactly the symbols it should") ELSE {}}

\* Saving and opening again changes nothing.
ReopenBad(S, T, res) ==
    IF res.how # "ok" \/ res.err
    THEN {<<p, "the saved image could not be opened again">> : p \in {"C04", "C08"}}
    ELSE Complain({"C04"}, S.own = T.own /\ S.con = T.con /\ S.head = T.head, "saving and reopening changed the disk")
         \cup Complain({"C09", "C08"}, TableSame(S, T), "saving and reopening changed the symbol table")

(* Reading.  want: what history says each file holds.                       *)
\* g: [q, how, err, data, n]
GetBad(S, want, g) ==
    LET f == Resolve(S, g.q)
        P == IF NumberOf(g.q) = 0 THEN {"C04", "C08"} ELSE {"C04"}
    IN IF g.how # "ok" THEN {<<p, "get did not return (" \o g.how \o ")">> : p \in P}
       ELSE IF f = 0 \/ f \notin DOMAIN want
       THEN Complain(P, g.err, "a file that does not exist was read")
       ELSE Complain(P, ~ g.err, "a stored file could not be read")
            \cup Complain(P, g.err \/ (g.data = want[f] /\ g.n = SecBytes * Len(want[f])), "a stored file reads back differently")

\* cat: sequence of [name, full, sectors, length], ascending by file number.
Ascending(F) == Sorted(F)

DFName(f) == <<68, 70>> \o Hex2(f)

CatalogBad(S, c) ==
    LET F == Ascending(UsedNums(S))
        naming == IF S.st THEN {j \in DOMAIN S.tab : S.tab[j].addr \in 57089..57341} ELSE {}
        namesOf == TLCEval([f \in {S.tab[j].addr - 57088 : j \in naming} |->
                              {S.tab[j].name : j \in {i \in naming : S.tab[i].addr = FileAddr(f)}}])
    IN IF {"C06", "C08"} \cap Asked = {} THEN {}
       ELSE IF c.how # "ok" \/ c.err THEN {<<"C08", "the catalog could not be read">>}
       ELSE IF Len(c.list) # Len(F)
       THEN {<<p, "the catalog does not list exactly the files">> : p \in {"C06", "C08"}}
       ELSE UNION {UNION {
              LET e == c.list[k]
                  N == IF F[k] \in DOMAIN namesOf THEN namesOf[F[k]] ELSE {}
              IN Complain({"C08"},
                    IF N = {} THEN e.name = DFName(F[k]) /\ (e.full = DFName(F[k]) \/ e.full = <<>>)
                    ELSE Upper(e.name) \in N /\ Upper(e.full) = DFName(F[k]) \o <<Colon>> \o Upper(e.name),
                    "the catalog does not show a file's name and number")
                 \cup Complain({"C06"}, e.sectors = Cardinality(SectorsOf(S, F[k])) /\ e.length = SecBytes * e.sectors,
                    "the catalog shows a wrong size")
            } : k \in 1..Len(F)}
=============================================================================
