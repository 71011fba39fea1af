----------------------------- MODULE MCLayouts -----------------------------
(* A small device, one structure in memory, and every order of loading,     *)
(* setting fields and storing; and that the real tables are exact.          *)
EXTENDS Layouts

CONSTANTS Units, Values

ASSUME \A s \in Names : Exact(Fields[s], Size(s))
\* Offsets that every description of these formats gives.
ASSUME LET off(s, n) == ByName[s][n].off IN
    /\ off("VTOC", "Volume") = 6 /\ off("VTOC", "FreeSectors.0") = 56 /\ off("VTOC", "FreeSectors.34") = 192
    /\ off("CatalogSector", "FileDescs.6.SectorCount") = 254
    /\ off("TrackSectorList", "TrackSectors.121.Sector") = 255
    /\ off("VolumeDirectoryKeyBlock", "Header.TotalBlocks") = 41
    /\ off("SubdirectoryKeyBlock", "Header.ParentPointer") = 39
    /\ off("VolumeDirectoryBlock", "Descriptors.12.HeaderPointer") = 509

Toy == {B("a", 0), W("b", 1), A("c", 3, 2)}
ToySize == 5
ToyNames == {f.name : f \in Toy}
Field(n) == CHOOSE f \in Toy : f.name = n

VARIABLES dev,   \* the device's units
          mem,   \* the structure's fields, or <<>> if nothing was loaded
          at,    \* the unit it was loaded from
          want   \* ghost: the device as it should be

vars == <<dev, mem, at, want>>

InitDev == [u \in Units |-> [i \in 1..ToySize |-> (7 * u + i) % 256]]
Init == dev = InitDev /\ want = InitDev /\ mem = <<>> /\ at = -1

Load(u) == mem' = Parsed(Toy, dev[u]) /\ at' = u /\ UNCHANGED <<dev, want>>
ToyValues(f) == CASE f.kind = "word" -> {<<x + 256 * y>> : x, y \in Values}
                  [] f.kind = "bytes" -> {<<x, y>> : x, y \in Values}
                  [] OTHER -> {<<x>> : x \in Values}
\* Setting a field and storing: the ghost is changed byte by byte.
SetStore(n, v) ==
    /\ at \in Units
    /\ LET m == [mem EXCEPT ![n] = v] IN
        /\ mem' = m
        /\ dev' = [dev EXCEPT ![at] = Serialised(Toy, ToySize, m)]
    /\ want' = [want EXCEPT ![at] = With(@, Field(n), v)]
    /\ at' = at
Store ==
    /\ at \in Units
    /\ dev' = [dev EXCEPT ![at] = Serialised(Toy, ToySize, mem)]
    /\ UNCHANGED <<mem, at, want>>

Next == \/ \E u \in Units : Load(u)
        \/ \E n \in ToyNames : \E v \in ToyValues(Field(n)) : SetStore(n, v)
        \/ Store
Spec == Init /\ [][Next]_vars

OnlyWhatWasSet == dev = want
Lossless == \A u \in Units : Serialised(Toy, ToySize, Parsed(Toy, dev[u])) = dev[u]
InStep == at \in Units => mem = Parsed(Toy, dev[at])
ToyExact == Exact(Toy, ToySize)
=============================================================================
