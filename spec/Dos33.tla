------------------------------- MODULE Dos33 --------------------------------
(* DOS 3.3 disks, byte by byte (Beneath Apple DOS, chapter 4), as read.      *)
(* img is [at, secs]: at[16*t + s + 1] says which of the sectors secs is at  *)
(* track t sector s (0: a sector of zeros).                                  *)
EXTENDS Bytes, Chains

Tracks == 35
SPT == 16
ZeroSector == TLCEval(Zeros(256))

OnDisk(p) == p[1] < Tracks /\ p[2] < SPT
SectorAt(img, p) ==
    LET k == img.at[SPT * p[1] + p[2] + 1] IN IF k = 0 THEN ZeroSector ELSE img.secs[k]

End == <<0, 0>>
NextPtr(sec) == <<At(sec, 1), At(sec, 2)>>

----------------------------------------------------------------------------
(* The volume table of contents.                                            *)

VTOC(img) == SectorAt(img, <<17, 0>>)
ValidVTOC(v) ==
    /\ At(v, 6) # 255              \* volume number
    /\ At(v, 3) = 3                \* DOS release
    /\ At(v, 49) \in {1, 255}      \* direction of allocation, +1 or -1
    /\ At(v, 52) = 35              \* tracks
    /\ At(v, 53) \in {13, 16}      \* sectors per track
    /\ Word(v, 54) = 256           \* bytes per sector
    /\ At(v, 39) = 122             \* pairs per track/sector list
    /\ \A t \in 0..49 : At(v, 56 + 4 * t + 2) = 0 /\ At(v, 56 + 4 * t + 3) = 0

\* The chain of catalog sectors: [ok, seq].
CatalogChain(img) ==
    LET v == VTOC(img)
    IN Chain(NextPtr(v), End, LAMBDA p : p[1] < At(v, 52) /\ p[2] < At(v, 53), LAMBDA p : NextPtr(SectorAt(img, p)))

\* A disk is a DOS 3.3 disk iff both are good.
ValidDisk(img) == ValidVTOC(VTOC(img)) /\ CatalogChain(img).ok

----------------------------------------------------------------------------
(* Catalog entries.                                                         *)

EntriesOf(sec) == [i \in 1..7 |-> Slice(sec, 11 + 35 * (i - 1), 35)]
Entries(img) == LET c == CatalogChain(img).seq
                IN TLCEval(Concat([k \in 1..Len(c) |-> EntriesOf(SectorAt(img, c[k]))]))

IsLive(e) == At(e, 0) \notin {0, 255}
IsDeleted(e) == At(e, 0) = 255
RawName(e) == Slice(e, 3, IF IsDeleted(e) THEN 29 ELSE 30)
\* Names are stored with high bits set; what other names look like is open.
Plain(e) == \A i \in 1..Len(RawName(e)) : RawName(e)[i] >= 128

RECURSIVE TrimBlanks(_)
TrimBlanks(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimBlanks(SubSeq(s, 1, Len(s) - 1)) ELSE s
NameOf(e) == LET r == RawName(e) IN TrimBlanks(TLCEval([i \in 1..Len(r) |-> r[i] % 128]))

\* The file type, as a ProDOS type number; 256 and up have none.  -1: unknown.
Kind(e) == At(e, 2) % 128
TypeOf(e) == CASE Kind(e) = 0 -> 4      \* text
               [] Kind(e) = 1 -> 250    \* Integer BASIC
               [] Kind(e) = 2 -> 252    \* Applesoft
               [] Kind(e) = 4 -> 6      \* binary
               [] Kind(e) = 8 -> 256    \* S
               [] Kind(e) = 16 -> 254   \* relocatable
               [] Kind(e) = 32 -> 257   \* new A
               [] Kind(e) = 64 -> 258   \* new B
               [] OTHER -> -1
IsLocked(e) == At(e, 2) >= 128
SectorCount(e) == Word(e, 33)

Files(img) == SelectSeq(Entries(img), IsLive)
DeletedFiles(img) == SelectSeq(Entries(img), IsDeleted)

----------------------------------------------------------------------------
(* File contents.                                                           *)

ListChain(img, e) ==
    Chain(<<At(e, 0), At(e, 1)>>, End, OnDisk, LAMBDA p : NextPtr(SectorAt(img, p)))

PairsOf(sec) == TLCEval([k \in 1..122 |-> <<At(sec, 12 + 2 * (k - 1)), At(sec, 13 + 2 * (k - 1))>>])
Used(pairs) == {k \in 1..122 : pairs[k] # End}
LastUsed(pairs) == IF Used(pairs) = {} THEN 0 ELSE CHOOSE k \in Used(pairs) : \A j \in Used(pairs) : j <= k

\* The data sectors, holes included, in file order.
Slots(img, lists) ==
    LET n == Len(lists)
    IN TLCEval(Concat([k \in 1..n |->
          LET ps == PairsOf(SectorAt(img, lists[k]))
          IN IF k < n THEN ps ELSE SubSeq(ps, 1, LastUsed(ps))]))

\* [ok, data]
Contents(img, e) ==
    LET c == ListChain(img, e)
    IN IF ~ c.ok THEN [ok |-> FALSE, data |-> <<>>]
       ELSE LET s == Slots(img, c.seq)
            IN IF \E k \in 1..Len(s) : s[k] # End /\ ~ OnDisk(s[k]) THEN [ok |-> FALSE, data |-> <<>>]
               ELSE [ok |-> TRUE, data |-> TLCEval(Concat([k \in 1..Len(s) |->
                                   IF s[k] = End THEN ZeroSector ELSE SectorAt(img, s[k])]))]

\* The length up to the last non-zero byte: whole sectors first, to be quick.
RECURSIVE TrimTo(_, _)
TrimTo(d, n) == IF n = 0 THEN 0
                ELSE IF d[n] # 0 THEN n
                ELSE IF n > 256 /\ n % 256 = 0 /\ SubSeq(d, n - 255, n) = ZeroSector THEN TrimTo(d, n - 256)
                ELSE TrimTo(d, n - 1)
TextLength(d) == TrimTo(d, Len(d))

NoFile == [ok |-> FALSE, data |-> <<>>, start |-> -1]

\* A stored length (at 0-based offset o) and the bytes it covers.
Counted(d, o, start) ==
    IF Len(d) < o + 2 THEN NoFile
    ELSE IF o + 2 + Word(d, o) > Len(d) THEN NoFile
    ELSE [ok |-> TRUE, data |-> Slice(d, o + 2, Word(d, o)), start |-> start]

\* What getting the file of an entry gives; start -1: open.
FileOf(img, e) ==
    IF Kind(e) \notin {0, 1, 2, 4} THEN NoFile
    ELSE LET c == Contents(img, e)
         IN IF ~ c.ok THEN NoFile
            ELSE CASE Kind(e) = 0 -> [ok |-> TRUE, data |-> SubSeq(c.data, 1, TextLength(c.data)), start |-> -1]
                   [] Kind(e) = 1 -> Counted(c.data, 0, -1)
                   [] Kind(e) = 2 -> Counted(c.data, 0, 2049)
                   [] Kind(e) = 4 -> IF Len(c.data) < 2 THEN NoFile ELSE Counted(c.data, 2, Word(c.data, 0))
=============================================================================
