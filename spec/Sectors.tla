------------------------------ MODULE Sectors -------------------------------
(* Sector access to an image in memory: copies are handed out and written   *)
(* back; nothing else moves.  img: unit -> content; hand: the copies held   *)
(* by the caller.                                                           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Units, Asked, Values     \* units on the image; numbers asked for; contents
VARIABLES img, hand, last
vars == <<img, hand, last>>

NoCopy == [unit |-> -1, val |-> 0]
Init == img = [u \in Units |-> 0] /\ hand = NoCopy /\ last = <<"none", -1, FALSE>>
Read == \E u \in Asked :
          IF u \in Units
          THEN hand' = [unit |-> u, val |-> img[u]] /\ last' = <<"read", u, TRUE>> /\ UNCHANGED img
          ELSE last' = <<"read", u, FALSE>> /\ UNCHANGED <<img, hand>>
Scribble == hand # NoCopy /\ \E v \in Values : hand' = [hand EXCEPT !.val = v] /\ last' = <<"scribble", hand.unit, TRUE>> /\ UNCHANGED img
Write == \E u \in Asked, v \in Values :
           IF u \in Units THEN img' = [img EXCEPT ![u] = v] /\ last' = <<"write", u, TRUE>> /\ UNCHANGED hand
           ELSE last' = <<"write", u, FALSE>> /\ UNCHANGED <<img, hand>>
Next == Read \/ Scribble \/ Write
Spec == Init /\ [][Next]_vars
\* Only a write changes the image, and only its unit; only the holder changes a copy.
Frame == [][/\ \A u \in Units : img'[u] # img[u] => last' = <<"write", u, TRUE>>
            /\ hand' # hand => last'[1] \in {"read", "scribble"}]_vars
Refused == last[2] \notin Units \cup {-1} => ~ last[3]
=============================================================================
