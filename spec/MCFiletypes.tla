---------------------------- MODULE MCFiletypes ----------------------------
(* Every name asked for against every order of the types sharing one.       *)
EXTENDS Filetypes, Json, SequencesExt

CONSTANT Gen

ASSUME \A c \in 0..255 \ {249} : c \in DOMAIN ByCode
ASSUME Cardinality(Table) = Cardinality(DOMAIN ByCode)
ASSUME \A r, s \in Table : r.name = s.name => r = s
\* No abbreviation is another type's name.
ASSUME \A r, s \in Table : s.name \in NamesOf(r) => r = s

Sharing == {r \in Table : r.three # "" \/ r.one # ""}

VARIABLES listing, asked
Init == listing = <<>> /\ asked = ""
\* The listing is built in any order of the types that share abbreviations.
Shared == {r \in Sharing : \E s \in Sharing : r # s /\ (NamesOf(r) \cap NamesOf(s)) # {}}
Add(r) == r \notin {listing[i] : i \in 1..Len(listing)} /\ asked = "" /\ listing' = Append(listing, r) /\ UNCHANGED asked
Rest == TLCEval(SetToSeq(Table \ Shared))
Ask(x) == Len(listing) = Cardinality(Shared) /\ asked = "" /\ asked' = x /\ UNCHANGED listing
Next == (\E r \in Shared : Add(r)) \/ (\E x \in AllNames : Ask(x))
Spec == Init /\ [][Next]_<<listing, asked>>

Full == listing \o Rest
Decided ==
    asked # "" =>
        LET c == Resolve(Full, asked) IN
        /\ c # -1 /\ asked \in NamesOf(ByCode[c])
        /\ \A r \in Table : asked \in NamesOf(r) =>
              \/ r.code = c
              \/ \E i, j \in 1..Len(Full) : i < j /\ Full[i].code = c /\ Full[j] = r
Unnamed == Resolve(Full, "") = -1 /\ Resolve(Full, "txt") = -1
ASSUME Gen => \A x \in AllNames : PrintT("NAME " \o ToJson(x))
=============================================================================
