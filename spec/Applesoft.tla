----------------------------- MODULE Applesoft -----------------------------
(* Tokenised Applesoft programs: lines linked by absolute addresses, each   *)
(* with a number and zero-terminated text in which bytes from $80 stand for *)
(* keywords.  Keywords as the Applesoft ROM has them, from $80 on.          *)
EXTENDS Bytes

Keywords == <<
    (*80 END     *) <<69, 78, 68>>,
    (*81 FOR     *) <<70, 79, 82>>,
    (*82 NEXT    *) <<78, 69, 88, 84>>,
    (*83 DATA    *) <<68, 65, 84, 65>>,
    (*84 INPUT   *) <<73, 78, 80, 85, 84>>,
    (*85 DEL     *) <<68, 69, 76>>,
    (*86 DIM     *) <<68, 73, 77>>,
    (*87 READ    *) <<82, 69, 65, 68>>,
    (*88 GR      *) <<71, 82>>,
    (*89 TEXT    *) <<84, 69, 88, 84>>,
    (*8A PR#     *) <<80, 82, 35>>,
    (*8B IN#     *) <<73, 78, 35>>,
    (*8C CALL    *) <<67, 65, 76, 76>>,
    (*8D PLOT    *) <<80, 76, 79, 84>>,
    (*8E HLIN    *) <<72, 76, 73, 78>>,
    (*8F VLIN    *) <<86, 76, 73, 78>>,
    (*90 HGR2    *) <<72, 71, 82, 50>>,
    (*91 HGR     *) <<72, 71, 82>>,
    (*92 HCOLOR= *) <<72, 67, 79, 76, 79, 82, 61>>,
    (*93 HPLOT   *) <<72, 80, 76, 79, 84>>,
    (*94 DRAW    *) <<68, 82, 65, 87>>,
    (*95 XDRAW   *) <<88, 68, 82, 65, 87>>,
    (*96 HTAB    *) <<72, 84, 65, 66>>,
    (*97 HOME    *) <<72, 79, 77, 69>>,
    (*98 ROT=    *) <<82, 79, 84, 61>>,
    (*99 SCALE=  *) <<83, 67, 65, 76, 69, 61>>,
    (*9A SHLOAD  *) <<83, 72, 76, 79, 65, 68>>,
    (*9B TRACE   *) <<84, 82, 65, 67, 69>>,
    (*9C NOTRACE *) <<78, 79, 84, 82, 65, 67, 69>>,
    (*9D NORMAL  *) <<78, 79, 82, 77, 65, 76>>,
    (*9E INVERSE *) <<73, 78, 86, 69, 82, 83, 69>>,
    (*9F FLASH   *) <<70, 76, 65, 83, 72>>,
    (*A0 COLOR=  *) <<67, 79, 76, 79, 82, 61>>,
    (*A1 POP     *) <<80, 79, 80>>,
    (*A2 VTAB    *) <<86, 84, 65, 66>>,
    (*A3 HIMEM:  *) <<72, 73, 77, 69, 77, 58>>,
    (*A4 LOMEM:  *) <<76, 79, 77, 69, 77, 58>>,
    (*A5 ONERR   *) <<79, 78, 69, 82, 82>>,
    (*A6 RESUME  *) <<82, 69, 83, 85, 77, 69>>,
    (*A7 RECALL  *) <<82, 69, 67, 65, 76, 76>>,
    (*A8 STORE   *) <<83, 84, 79, 82, 69>>,
    (*A9 SPEED=  *) <<83, 80, 69, 69, 68, 61>>,
    (*AA LET     *) <<76, 69, 84>>,
    (*AB GOTO    *) <<71, 79, 84, 79>>,
    (*AC RUN     *) <<82, 85, 78>>,
    (*AD IF      *) <<73, 70>>,
    (*AE RESTORE *) <<82, 69, 83, 84, 79, 82, 69>>,
    (*AF &       *) <<38>>,
    (*B0 GOSUB   *) <<71, 79, 83, 85, 66>>,
    (*B1 RETURN  *) <<82, 69, 84, 85, 82, 78>>,
    (*B2 REM     *) <<82, 69, 77>>,
    (*B3 STOP    *) <<83, 84, 79, 80>>,
    (*B4 ON      *) <<79, 78>>,
    (*B5 WAIT    *) <<87, 65, 73, 84>>,
    (*B6 LOAD    *) <<76, 79, 65, 68>>,
    (*B7 SAVE    *) <<83, 65, 86, 69>>,
    (*B8 DEF     *) <<68, 69, 70>>,
    (*B9 POKE    *) <<80, 79, 75, 69>>,
    (*BA PRINT   *) <<80, 82, 73, 78, 84>>,
    (*BB CONT    *) <<67, 79, 78, 84>>,
    (*BC LIST    *) <<76, 73, 83, 84>>,
    (*BD CLEAR   *) <<67, 76, 69, 65, 82>>,
    (*BE GET     *) <<71, 69, 84>>,
    (*BF NEW     *) <<78, 69, 87>>,
    (*C0 TAB(    *) <<84, 65, 66, 40>>,
    (*C1 TO      *) <<84, 79>>,
    (*C2 FN      *) <<70, 78>>,
    (*C3 SPC(    *) <<83, 80, 67, 40>>,
    (*C4 THEN    *) <<84, 72, 69, 78>>,
    (*C5 AT      *) <<65, 84>>,
    (*C6 NOT     *) <<78, 79, 84>>,
    (*C7 STEP    *) <<83, 84, 69, 80>>,
    (*C8 +       *) <<43>>,
    (*C9 -       *) <<45>>,
    (*CA *       *) <<42>>,
    (*CB /       *) <<47>>,
    (*CC ^       *) <<94>>,
    (*CD AND     *) <<65, 78, 68>>,
    (*CE OR      *) <<79, 82>>,
    (*CF >       *) <<62>>,
    (*D0 =       *) <<61>>,
    (*D1 <       *) <<60>>,
    (*D2 SGN     *) <<83, 71, 78>>,
    (*D3 INT     *) <<73, 78, 84>>,
    (*D4 ABS     *) <<65, 66, 83>>,
    (*D5 USR     *) <<85, 83, 82>>,
    (*D6 FRE     *) <<70, 82, 69>>,
    (*D7 SCRN(   *) <<83, 67, 82, 78, 40>>,
    (*D8 PDL     *) <<80, 68, 76>>,
    (*D9 POS     *) <<80, 79, 83>>,
    (*DA SQR     *) <<83, 81, 82>>,
    (*DB RND     *) <<82, 78, 68>>,
    (*DC LOG     *) <<76, 79, 71>>,
    (*DD EXP     *) <<69, 88, 80>>,
    (*DE COS     *) <<67, 79, 83>>,
    (*DF SIN     *) <<83, 73, 78>>,
    (*E0 TAN     *) <<84, 65, 78>>,
    (*E1 ATN     *) <<65, 84, 78>>,
    (*E2 PEEK    *) <<80, 69, 69, 75>>,
    (*E3 LEN     *) <<76, 69, 78>>,
    (*E4 STR$    *) <<83, 84, 82, 36>>,
    (*E5 VAL     *) <<86, 65, 76>>,
    (*E6 ASC     *) <<65, 83, 67>>,
    (*E7 CHR$    *) <<67, 72, 82, 36>>,
    (*E8 LEFT$   *) <<76, 69, 70, 84, 36>>,
    (*E9 RIGHT$  *) <<82, 73, 71, 72, 84, 36>>,
    (*EA MID$    *) <<77, 73, 68, 36>>
>>
IsToken(c) == c \in 128..(127 + Len(Keywords))
\* Some write PR#, IN# and SCRN( with a blank; either is the keyword.
Keyword(c, spaced) ==
    LET k == Keywords[c - 127]
    IN IF spaced /\ c \in {138, 139, 215} THEN SubSeq(k, 1, Len(k) - 1) \o <<32, k[Len(k)]>> ELSE k

\* A file may start with its length, counted with or without a byte more.
HasHeader(raw) == Len(raw) >= 2 /\ (Word(raw, 0) = Len(raw) - 2 \/ Word(raw, 0) = Len(raw) - 3)
Body(raw) == IF HasHeader(raw) THEN SubSeq(raw, 3, Len(raw)) ELSE raw

Failed == [ok |-> FALSE, lines |-> <<>>]

\* The place (from 1) of the first zero at or after place i, or 0.
RECURSIVE ZeroFrom(_, _)
ZeroFrom(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroFrom(b, i + 1)

\* Follows the links from address a.
RECURSIVE Walk(_, _, _, _, _)
Walk(b, loc, a, seen, lines) ==
    LET o == a - loc
    IN IF a \in seen \/ o < 0 \/ o + 2 > Len(b) THEN Failed
       ELSE IF Word(b, o) = 0 THEN [ok |-> TRUE, lines |-> lines]
       ELSE IF o + 4 > Len(b) THEN Failed
       ELSE LET z == ZeroFrom(b, o + 5)
            IN IF z = 0 THEN Failed
               ELSE LET text == SubSeq(b, o + 5, z - 1)
                    IN IF \E i \in 1..Len(text) : text[i] > 127 /\ ~ IsToken(text[i]) THEN Failed
                       ELSE Walk(b, loc, Word(b, o), seen \cup {a}, Append(lines, [num |-> Word(b, o + 2), text |-> text]))

Decoded(raw, loc) == LET b == Body(raw) IN Walk(b, loc, loc, {}, <<>>)

\* Storing a program at a location.
RECURSIVE Stored(_, _)
Stored(lines, loc) ==
    IF lines = <<>> THEN <<0, 0>>
    ELSE LET x == Head(lines)
             next == loc + 4 + Len(x.text) + 1
         IN <<Lo(next), Hi(next), Lo(x.num), Hi(x.num)>> \o x.text \o <<0>> \o Stored(Tail(lines), next)

\* The listing.
RECURSIVE LineText(_, _, _)
LineText(text, i, sp) ==
    IF i > Len(text) THEN <<>>
    ELSE (IF text[i] < 128 THEN <<text[i]>> ELSE <<32>> \o Keyword(text[i], sp) \o <<32>>) \o LineText(text, i + 1, sp)
Listed(lines, sp) ==
    Concat(TLCEval([i \in 1..Len(lines) |-> Decimal(lines[i].num) \o <<32>> \o LineText(lines[i].text, 1, sp) \o <<10>>]))
=============================================================================
