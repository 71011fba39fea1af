------------------------------ MODULE Reading -------------------------------
(* A session with an opened image: questions (listings, files) and attempts *)
(* to write.  Asking changes nothing, a refused attempt changes nothing,    *)
(* and what is answered depends on the image alone: not on what was asked   *)
(* or refused before, nor on what the caller did to earlier answers, and a  *)
(* fresh opening of the same image says the same.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* What a session knows: the image it holds, and the answers given since it
\* last changed (a function from questions to answers).
Start(img) == [img |-> img, said |-> <<>>]

Kept(K, T) == T = K.img
Told(K, q) == q \in DOMAIN K.said
Told1(K, q, a) == [K EXCEPT !.said = (q :> a) @@ @]
Changed(img) == Start(img)

CR(cond, what) == IF cond THEN {} ELSE {<<"C23", what>>}

\* A question q answered a, the image being T afterwards.
AskBad(K, q, a, T, fresh) ==
    CR(Kept(K, T), "reading changed the image")
    \cup CR(Told(K, q) => K.said[q] = a,
            IF fresh THEN "a fresh opening of the same image answers differently"
            ELSE "the same question about the same image was answered differently")
AskNext(K, q, a) == IF Told(K, q) THEN K ELSE Told1(K, q, a)

\* An attempt to write; able: whether the system can be written at all.
WriteBad(K, able, err, T) ==
    CR(able \/ err, "a system that cannot be written accepted a change")
    \cup CR(err => Kept(K, T), "a refused change changed the image")
WriteNext(K, T) == IF Kept(K, T) THEN K ELSE Changed(T)

\* The caller overwrites an answer it was given.
ScribbleBad(K, T) == CR(Kept(K, T), "overwriting an answer changed the image")
=============================================================================
