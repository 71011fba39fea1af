--------------------------- MODULE IntegerBasic ---------------------------
(* Tokenised Integer BASIC programs: lines of a length byte, a number, the  *)
(* tokens and the end mark 1.  Tokens are bytes below $80; characters have  *)
(* the high bit set; a digit that does not continue a word starts a number: *)
(* the digit and two bytes of value.                                        *)
EXTENDS Bytes

EndMark == 1
QuoteStart == 40
QuoteEnd == 41
Rem == 93

\* What each token is listed as, from 0 on.
Keywords == <<
    (*00 HIMEM:    *) <<72, 73, 77, 69, 77, 58>>,
    (*01 <token-01>*) <<60, 116, 111, 107, 101, 110, 45, 48, 49, 62>>,
    (*02 _         *) <<95>>,
    (*03 :         *) <<58>>,
    (*04 LOAD      *) <<76, 79, 65, 68>>,
    (*05 SAVE      *) <<83, 65, 86, 69>>,
    (*06 CON       *) <<67, 79, 78>>,
    (*07 RUN       *) <<82, 85, 78>>,
    (*08 RUN       *) <<82, 85, 78>>,
    (*09 DEL       *) <<68, 69, 76>>,
    (*0A ,         *) <<44>>,
    (*0B NEW       *) <<78, 69, 87>>,
    (*0C CLR       *) <<67, 76, 82>>,
    (*0D AUTO      *) <<65, 85, 84, 79>>,
    (*0E ,         *) <<44>>,
    (*0F MAN       *) <<77, 65, 78>>,
    (*10 HIMEM:    *) <<72, 73, 77, 69, 77, 58>>,
    (*11 LOMEM:    *) <<76, 79, 77, 69, 77, 58>>,
    (*12 +         *) <<43>>,
    (*13 -         *) <<45>>,
    (*14 *         *) <<42>>,
    (*15 /         *) <<47>>,
    (*16 =         *) <<61>>,
    (*17 #         *) <<35>>,
    (*18 >=        *) <<62, 61>>,
    (*19 >         *) <<62>>,
    (*1A <=        *) <<60, 61>>,
    (*1B <>        *) <<60, 62>>,
    (*1C <         *) <<60>>,
    (*1D AND       *) <<65, 78, 68>>,
    (*1E OR        *) <<79, 82>>,
    (*1F MOD       *) <<77, 79, 68>>,
    (*20 ^         *) <<94>>,
    (*21 +         *) <<43>>,
    (*22 (         *) <<40>>,
    (*23 ,         *) <<44>>,
    (*24 THEN      *) <<84, 72, 69, 78>>,
    (*25 THEN      *) <<84, 72, 69, 78>>,
    (*26 ,         *) <<44>>,
    (*27 ,         *) <<44>>,
    (*28 "         *) <<34>>,
    (*29 "         *) <<34>>,
    (*2A (         *) <<40>>,
    (*2B !         *) <<33>>,
    (*2C !         *) <<33>>,
    (*2D (         *) <<40>>,
    (*2E PEEK      *) <<80, 69, 69, 75>>,
    (*2F RND       *) <<82, 78, 68>>,
    (*30 SGN       *) <<83, 71, 78>>,
    (*31 ABS       *) <<65, 66, 83>>,
    (*32 PDL       *) <<80, 68, 76>>,
    (*33 RNDX      *) <<82, 78, 68, 88>>,
    (*34 (         *) <<40>>,
    (*35 +         *) <<43>>,
    (*36 -         *) <<45>>,
    (*37 NOT       *) <<78, 79, 84>>,
    (*38 (         *) <<40>>,
    (*39 =         *) <<61>>,
    (*3A #         *) <<35>>,
    (*3B LEN(      *) <<76, 69, 78, 40>>,
    (*3C ASC(      *) <<65, 83, 67, 40>>,
    (*3D SCRN(     *) <<83, 67, 82, 78, 40>>,
    (*3E ,         *) <<44>>,
    (*3F (         *) <<40>>,
    (*40 $         *) <<36>>,
    (*41 $         *) <<36>>,
    (*42 (         *) <<40>>,
    (*43 ,         *) <<44>>,
    (*44 ,         *) <<44>>,
    (*45 ;         *) <<59>>,
    (*46 ;         *) <<59>>,
    (*47 ;         *) <<59>>,
    (*48 ,         *) <<44>>,
    (*49 ,         *) <<44>>,
    (*4A ,         *) <<44>>,
    (*4B TEXT      *) <<84, 69, 88, 84>>,
    (*4C GR        *) <<71, 82>>,
    (*4D CALL      *) <<67, 65, 76, 76>>,
    (*4E DIM       *) <<68, 73, 77>>,
    (*4F DIM       *) <<68, 73, 77>>,
    (*50 TAB       *) <<84, 65, 66>>,
    (*51 END       *) <<69, 78, 68>>,
    (*52 INPUT     *) <<73, 78, 80, 85, 84>>,
    (*53 INPUT     *) <<73, 78, 80, 85, 84>>,
    (*54 INPUT     *) <<73, 78, 80, 85, 84>>,
    (*55 FOR       *) <<70, 79, 82>>,
    (*56 =         *) <<61>>,
    (*57 TO        *) <<84, 79>>,
    (*58 STEP      *) <<83, 84, 69, 80>>,
    (*59 NEXT      *) <<78, 69, 88, 84>>,
    (*5A ,         *) <<44>>,
    (*5B RETURN    *) <<82, 69, 84, 85, 82, 78>>,
    (*5C GOSUB     *) <<71, 79, 83, 85, 66>>,
    (*5D REM       *) <<82, 69, 77>>,
    (*5E LET       *) <<76, 69, 84>>,
    (*5F GOTO      *) <<71, 79, 84, 79>>,
    (*60 IF        *) <<73, 70>>,
    (*61 PRINT     *) <<80, 82, 73, 78, 84>>,
    (*62 PRINT     *) <<80, 82, 73, 78, 84>>,
    (*63 PRINT     *) <<80, 82, 73, 78, 84>>,
    (*64 POKE      *) <<80, 79, 75, 69>>,
    (*65 ,         *) <<44>>,
    (*66 COLOR=    *) <<67, 79, 76, 79, 82, 61>>,
    (*67 PLOT      *) <<80, 76, 79, 84>>,
    (*68 ,         *) <<44>>,
    (*69 HLIN      *) <<72, 76, 73, 78>>,
    (*6A ,         *) <<44>>,
    (*6B AT        *) <<65, 84>>,
    (*6C VLIN      *) <<86, 76, 73, 78>>,
    (*6D ,         *) <<44>>,
    (*6E AT        *) <<65, 84>>,
    (*6F VTAB      *) <<86, 84, 65, 66>>,
    (*70 =         *) <<61>>,
    (*71 =         *) <<61>>,
    (*72 )         *) <<41>>,
    (*73 )         *) <<41>>,
    (*74 LIST      *) <<76, 73, 83, 84>>,
    (*75 ,         *) <<44>>,
    (*76 LIST      *) <<76, 73, 83, 84>>,
    (*77 POP       *) <<80, 79, 80>>,
    (*78 NODSP     *) <<78, 79, 68, 83, 80>>,
    (*79 DSP       *) <<68, 83, 80>>,
    (*7A NOTRACE   *) <<78, 79, 84, 82, 65, 67, 69>>,
    (*7B DSP       *) <<68, 83, 80>>,
    (*7C DSP       *) <<68, 83, 80>>,
    (*7D TRACE     *) <<84, 82, 65, 67, 69>>,
    (*7E PR#       *) <<80, 82, 35>>,
    (*7F IN#       *) <<73, 78, 35>>
>>
Keyword(c) == Keywords[c + 1]

HasHeader(raw) == Len(raw) >= 2 /\ (Word(raw, 0) = Len(raw) - 2 \/ Word(raw, 0) = Len(raw) - 3)
Body(raw) == IF HasHeader(raw) THEN SubSeq(raw, 3, Len(raw)) ELSE raw

\* The lines of b from place i (from 0).  rest: bytes left over, too few for
\* a line.
Failed == [ok |-> FALSE, lines |-> <<>>, rest |-> 0]
RECURSIVE LinesFrom(_, _, _)
LinesFrom(b, i, lines) ==
    LET left == Len(b) - i
    IN IF left < 4 THEN [ok |-> TRUE, lines |-> lines, rest |-> left]
       ELSE LET size == At(b, i)
            IN IF size < 4 \/ size > left THEN Failed
               ELSE IF At(b, i + size - 1) # EndMark THEN Failed
               ELSE LinesFrom(b, i + size, Append(lines, [num |-> Word(b, i + 1), text |-> Slice(b, i + 3, size - 4)]))
Decoded(raw) == LinesFrom(Body(raw), 0, <<>>)

\* Storing a program.
StoredLine(x) == <<Len(x.text) + 4, Lo(x.num), Hi(x.num)>> \o x.text \o <<EndMark>>
RECURSIVE Stored(_)
Stored(lines) == IF lines = <<>> THEN <<>> ELSE StoredLine(Head(lines)) \o Stored(Tail(lines))

\* Listing a line.
IsWordChar(c) == IsDigit(c) \/ IsUpper(c) \/ IsLower(c)
Spaced(k) == IF Len(k) > 1 THEN k \o <<32>> ELSE k

\* The text of a line from place i; word: the last character continued a
\* word; quote: inside a string.
RECURSIVE ListedFrom(_, _, _, _)
ListedFrom(t, i, word, quote) ==
    IF i > Len(t) THEN <<>>
    ELSE LET c == t[i] IN
         IF c < 128
         THEN IF c = Rem
              THEN Spaced(Keyword(c)) \o [k \in 1..Len(t) - i |-> t[i + k] - 128]
              ELSE Spaced(Keyword(c)) \o ListedFrom(t, i + 1, FALSE, c = QuoteStart)
         ELSE IF IsDigit(c - 128) /\ ~ quote /\ ~ word
         THEN Decimal(Word(t, i)) \o ListedFrom(t, i + 3, TRUE, quote)
         ELSE <<c - 128>> \o ListedFrom(t, i + 1, IsWordChar(c - 128), quote)
    \* (Word(t, i): the two bytes after place i, which counts from 1)

\* Lines whose listing means something: numbers are whole and do not touch
\* each other, remarks are characters, and only known tokens occur.
RECURSIVE ListableFrom(_, _, _, _)
ListableFrom(t, i, word, quote) ==
    IF i > Len(t) THEN TRUE
    ELSE LET c == t[i] IN
         IF c < 128
         THEN IF c = Rem THEN \A k \in i + 1..Len(t) : t[k] >= 128
              ELSE c > 2 /\ ListableFrom(t, i + 1, FALSE, c = QuoteStart)
         ELSE IF IsDigit(c - 128) /\ ~ quote /\ ~ word
         THEN /\ i + 2 <= Len(t)
              /\ (i + 3 <= Len(t) => t[i + 3] < 128)
              /\ ListableFrom(t, i + 3, TRUE, quote)
         ELSE ListableFrom(t, i + 1, IsWordChar(c - 128), quote)
Listable(t) == ListableFrom(t, 1, FALSE, FALSE)

\* Numbers are right-aligned in five places.
Padded(n) == LET d == Decimal(n) IN [k \in 1..(5 - Len(d)) |-> 32] \o d
LineListed(x) == Padded(x.num) \o <<32>> \o ListedFrom(x.text, 1, FALSE, FALSE)
Listed(lines) == Concat(TLCEval([i \in 1..Len(lines) |-> LineListed(lines[i]) \o <<10>>]))
=============================================================================
