------------------------------ MODULE MCTables ------------------------------
(* A program reads a symbol table slot by slot from memory, then follows    *)
(* each link once; it refuses exactly the tables Lookups says it must, and  *)
(* otherwise holds what is there.  The memories are printed as cases.       *)
EXTENDS Lookups, Json

CONSTANTS Addrs, Links, Gen

VARIABLES mem,      \* slot -> [addr, la]: the words stored
          pc, i, tab, refused
vars == <<mem, pc, i, tab, refused>>

McSlots == 3
SomeAddrs == {0, 57089, 57217, 57153, 57090, 128}      \* DF01 and DF81 share a hash class
FewAddrs == {0, 57089, 57217, 57153}
SomeLinks == {0, 53247, 53248, 53253, 53258, 53254, 53263}
FewLinks == {0, 53248, 53253, 53258, 53254, 53263}

Names == <<<<71, 71, 71>>, <<68, 48, 57>>, <<>>>>
RawOf(m) == [j \in DOMAIN m |-> LET six == EncodeName(Names[j + 1])
                                IN [a |-> <<Lo(m[j].addr), Hi(m[j].addr), Lo(m[j].la), Hi(m[j].la), six[6]>>,
                                    b |-> <<six[1], six[2], six[3], six[4], six[5]>>]]

Init == /\ mem \in [Slots -> [addr : Addrs, la : Links]]
        /\ pc = "slots" /\ i = 0 /\ tab = <<>> /\ refused = FALSE
ReadSlot ==
    /\ pc = "slots" /\ i < NumSlots
    /\ \E x \in {mem[i]} :
          IF x.addr = 0 THEN UNCHANGED <<tab, refused>>
          ELSE IF x.la # 0 /\ (x.la < 53248 \/ x.la > 53248 + 5 * (NumSlots - 1) \/ (x.la - 53248) % 5 # 0)
          THEN refused' = TRUE /\ UNCHANGED tab
          ELSE /\ UNCHANGED refused
               /\ tab' = (i :> [addr |-> x.addr, link |-> IF x.la = 0 THEN NoLink ELSE (x.la - 53248) \div 5, name |-> Names[i + 1]]) @@ tab
    /\ i' = i + 1 /\ UNCHANGED <<mem, pc>>
Turn == pc = "slots" /\ i = NumSlots /\ pc' = "links" /\ i' = 0 /\ UNCHANGED <<mem, tab, refused>>
Follow ==
    /\ pc = "links" /\ i < NumSlots
    /\ refused' = (refused \/ (/\ i \in DOMAIN tab /\ tab[i].link # NoLink
                               /\ \/ tab[i].link = i
                                  \/ LET to == IF tab[i].link \in DOMAIN tab THEN tab[tab[i].link].addr ELSE 0
                                     IN Hash(to) # Hash(tab[i].addr)))
    /\ i' = i + 1 /\ UNCHANGED <<mem, pc, tab>>
Finish == pc = "links" /\ i = NumSlots /\ pc' = "done" /\ UNCHANGED <<mem, i, tab, refused>>
Next == ReadSlot \/ Turn \/ Follow \/ Finish
Spec == Init /\ [][Next]_vars

ReadsExactly ==
    pc = "done" =>
        \E p \in {Parsed(RawOf(mem))} :
           /\ MustRefuse(p) => refused
           /\ refused => MayRefuse(p)
           /\ ~ refused => tab = p
\* What a table says does not depend on the order in which it is searched.
Lookable ==
    (pc = "done" /\ ~ refused) =>
        /\ \A n \in {Names[1], Names[2]} : (AddressOf(tab, n) # 0) = (\E j \in DOMAIN tab : tab[j].name = n)
        /\ UNION {SlotsAt(tab, a) : a \in Addrs} = DOMAIN tab
\* Only the memories.
GenSpec == Init /\ [][FALSE]_vars
Shown == (Gen /\ pc = "slots" /\ i = 0) =>
            PrintT("MEMORY " \o ToJson([slots |-> [j \in 1..NumSlots |-> <<mem[j - 1].addr, mem[j - 1].la>>]]))
=============================================================================
