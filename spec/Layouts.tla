------------------------------ MODULE Layouts ------------------------------
(* The on-disk structures, as tables of fields: where each field lies in    *)
(* its sector or block, how wide it is and how its bytes are read.  Taken   *)
(* from the published formats (Beneath Apple DOS chapter 4, Beneath Apple   *)
(* ProDOS chapter 4), not from the code.                                    *)
EXTENDS Bytes

\* A field: its name (the path of names and indexes), offset, width, kind.
F(name, off, width, kind) == [name |-> name, off |-> off, width |-> width, kind |-> kind]
B(name, off) == F(name, off, 1, "byte")
I(name, off) == F(name, off, 1, "signed")
W(name, off) == F(name, off, 2, "word")
A(name, off, width) == F(name, off, width, "bytes")

\* The fields of a part called name, laid at offset off.
At_(name, off, part) == {[f EXCEPT !.name = name \o "." \o @, !.off = off + @] : f \in part}
\* count parts of size bytes each, one after another from off.
Repeat(name, off, size, count, part) ==
    UNION {At_(name \o "." \o ToString(i), off + i * size, part) : i \in 0..count - 1}

VTOC == {
    B("Unused1", 0), B("CatalogTrack", 1), B("CatalogSector", 2), B("DOSRelease", 3), A("Unused2", 4, 2),
    B("Volume", 6), A("Unused3", 7, 32), B("TrackSectorListMaxSize", 39), A("Unused4", 40, 8),
    B("LastTrack", 48), I("TrackDirection", 49), A("Unused5", 50, 2), B("NumTracks", 52), B("NumSectors", 53),
    W("BytesPerSector", 54)}
    \cup {A("FreeSectors." \o ToString(i), 56 + 4 * i, 4) : i \in 0..49}

FileDesc == {
    B("TrackSectorListTrack", 0), B("TrackSectorListSector", 1), B("Filetype", 2), A("Filename", 3, 30),
    W("SectorCount", 33)}

CatalogSector == {B("Unused1", 0), B("NextTrack", 1), B("NextSector", 2), A("Unused2", 3, 8)}
    \cup Repeat("FileDescs", 11, 35, 7, FileDesc)

TrackSectorList == {
    B("Unused1", 0), B("NextTrack", 1), B("NextSector", 2), A("Unused2", 3, 2), W("SectorOffset", 5), A("Unused3", 7, 5)}
    \cup Repeat("TrackSectors", 12, 2, 122, {B("Track", 0), B("Sector", 1)})

DateTime == {A("YMD", 0, 2), A("HM", 2, 2)}

FileDescriptor == {
    B("TypeAndNameLength", 0), A("FileName", 1, 15), B("FileType", 16), W("KeyPointer", 17), W("BlocksUsed", 19),
    A("EOF", 21, 3), B("Version", 28), B("MinVersion", 29), B("Access", 30), W("AuxType", 31),
    W("HeaderPointer", 37)}
    \cup At_("Creation", 24, DateTime) \cup At_("LastMod", 33, DateTime)

VolumeHeader == {
    B("TypeAndNameLength", 0), A("VolumeName", 1, 15), A("Unused1", 16, 8), B("Version", 28), B("MinVersion", 29),
    B("Access", 30), B("EntryLength", 31), B("EntriesPerBlock", 32), W("FileCount", 33), W("BitMapPointer", 35),
    W("TotalBlocks", 37)}
    \cup At_("Creation", 24, DateTime)

SubdirHeader == {
    B("TypeAndNameLength", 0), A("SubdirectoryName", 1, 15), B("SeventyFive", 16), A("Unused1", 17, 7),
    B("Version", 28), B("MinVersion", 29), B("Access", 30), B("EntryLength", 31), B("EntriesPerBlock", 32),
    W("FileCount", 33), W("ParentPointer", 35), B("ParentEntry", 37), B("ParentEntryLength", 38)}
    \cup At_("Creation", 24, DateTime)

Links == {W("Prev", 0), W("Next", 2), B("Extra", 511)}
KeyBlock(header) == Links \cup At_("Header", 4, header) \cup Repeat("Descriptors", 43, 39, 12, FileDescriptor)
LaterBlock == Links \cup Repeat("Descriptors", 4, 39, 13, FileDescriptor)

Names == {"VTOC", "CatalogSector", "TrackSectorList", "VolumeDirectoryKeyBlock", "VolumeDirectoryBlock",
          "SubdirectoryKeyBlock", "SubdirectoryBlock"}

Fields == TLCEval([s \in Names |->
    CASE s = "VTOC" -> VTOC
      [] s = "CatalogSector" -> CatalogSector
      [] s = "TrackSectorList" -> TrackSectorList
      [] s = "VolumeDirectoryKeyBlock" -> KeyBlock(VolumeHeader)
      [] s = "SubdirectoryKeyBlock" -> KeyBlock(SubdirHeader)
      [] OTHER -> LaterBlock])

Size(s) == IF s \in {"VTOC", "CatalogSector", "TrackSectorList"} THEN 256 ELSE 512

\* The field of a structure with a name.
ByName == TLCEval([s \in Names |-> TLCEval([n \in {f.name : f \in Fields[s]} |-> CHOOSE f \in Fields[s] : f.name = n])])

\* Reading a field out of bytes, and the bytes of a value.  A value is a
\* sequence: one number, or the bytes of a byte field.
Value(f, data) ==
    CASE f.kind = "byte" -> <<At(data, f.off)>>
      [] f.kind = "signed" -> <<IF At(data, f.off) > 127 THEN At(data, f.off) - 256 ELSE At(data, f.off)>>
      [] f.kind = "word" -> <<Word(data, f.off)>>
      [] f.kind = "bytes" -> Slice(data, f.off, f.width)

Encoded(f, v) ==
    CASE f.kind = "byte" -> v
      [] f.kind = "signed" -> <<(v[1] + 256) % 256>>
      [] f.kind = "word" -> <<Lo(v[1]), Hi(v[1])>>
      [] f.kind = "bytes" -> v

\* The bytes with a field set to a value.
With(data, f, v) ==
    LET b == Encoded(f, v)
    IN [i \in 1..Len(data) |-> IF i - 1 \in f.off..(f.off + f.width - 1) THEN b[i - f.off] ELSE data[i]]

\* Serialising what was parsed.
Parsed(fs, data) == [n \in {f.name : f \in fs} |-> Value(CHOOSE f \in fs : f.name = n, data)]
Covering(fs, i) == {f \in fs : i \in f.off..(f.off + f.width - 1)}
Serialised(fs, n, vals) ==
    [i \in 1..n |-> LET f == CHOOSE g \in Covering(fs, i - 1) : TRUE IN Encoded(f, vals[f.name])[i - f.off]]

\* Every byte belongs to exactly one field.
Span(f) == f.off..(f.off + f.width - 1)
RECURSIVE Widths(_)
Widths(fs) == IF fs = {} THEN 0 ELSE LET f == CHOOSE g \in fs : TRUE IN f.width + Widths(fs \ {f})
Exact(fs, n) ==
    /\ UNION {Span(f) : f \in fs} = 0..n - 1
    /\ Widths(fs) = n
    /\ Cardinality({f.name : f \in fs}) = Cardinality(fs)
=============================================================================
