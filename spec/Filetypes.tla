----------------------------- MODULE Filetypes -----------------------------
(* The ProDOS/SOS file types $00-$FF and the three DOS 3.3 types without an *)
(* equivalent there: code, name, three-letter and one-letter abbreviation   *)
(* ("" if none), meaning, and whether only the full listing shows it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

R(code, name, three, one, desc, extra) ==
    [code |-> code, name |-> name, three |-> three, one |-> one, desc |-> desc, extra |-> extra]

Named == <<
    R(0, "Typeless", "", "", "Typeless file", FALSE),
    R(1, "BadBlocks", "", "", "Bad blocks file", FALSE),
    R(2, "SOSPascalCode", "", "", "PASCAL code file", TRUE),
    R(3, "SOSPascalText", "", "", "PASCAL text file", TRUE),
    R(4, "ASCIIText", "TXT", "T", "ASCII text file", FALSE),
    R(5, "SOSPascalText2", "", "", "PASCAL text file", TRUE),
    R(6, "Binary", "BIN", "B", "Binary file", FALSE),
    R(7, "Font", "", "", "Font file", TRUE),
    R(8, "GraphicsScreen", "", "", "Graphics screen file", TRUE),
    R(9, "BusinessBASIC", "", "", "Business BASIC program file", TRUE),
    R(10, "BusinessBASICData", "", "", "Business BASIC data file", TRUE),
    R(11, "SOSWordProcessor", "", "", "Word processor file", TRUE),
    R(12, "SOSSystem", "", "", "SOS system file", TRUE),
    R(15, "Directory", "DIR", "D", "Directory file", FALSE),
    R(16, "RPSData", "", "", "RPS data file", TRUE),
    R(17, "RPSIndex", "", "", "RPS index file", TRUE),
    R(25, "AppleWorksDatabase", "ADB", "", "AppleWorks data base file", FALSE),
    R(26, "AppleWorksWordProcessor", "AWP", "", "AppleWorks word processing file", FALSE),
    R(27, "AppleWorksSpreadsheet", "ASP", "", "AppleWorks spreadsheet file", FALSE),
    R(239, "Pascal", "PAS", "", "ProDOS PASCAL file", FALSE),
    R(240, "Command", "CMD", "", "Added command file", FALSE),
    R(241, "UserDefinedF1", "", "", "ProDOS user defined file type F1", TRUE),
    R(242, "UserDefinedF2", "", "", "ProDOS user defined file type F2", TRUE),
    R(243, "UserDefinedF3", "", "", "ProDOS user defined file type F3", TRUE),
    R(244, "UserDefinedF4", "", "", "ProDOS user defined file type F4", TRUE),
    R(245, "UserDefinedF5", "", "", "ProDOS user defined file type F5", TRUE),
    R(246, "UserDefinedF6", "", "", "ProDOS user defined file type F6", TRUE),
    R(247, "UserDefinedF7", "", "", "ProDOS user defined file type F7", TRUE),
    R(248, "UserDefinedF8", "", "", "ProDOS user defined file type F8", TRUE),
    R(250, "IntegerBASIC", "INT", "I", "Integer BASIC program file", FALSE),
    R(251, "IntegerBASICVariables", "IVR", "", "Integer BASIC variables file", FALSE),
    R(252, "ApplesoftBASIC", "BAS", "A", "Applesoft BASIC program file", FALSE),
    R(253, "ApplesoftBASICVariables", "VAR", "", "Applesoft BASIC variables file", FALSE),
    R(254, "Relocatable", "REL", "R", "EDASM relocatable object module file", FALSE),
    R(255, "System", "SYS", "", "System file", FALSE),
    R(256, "S", "", "S", "DOS 3.3 Type \"S\"", FALSE),
    R(257, "NewA", "", "A", "DOS 3.3 Type \"new A\"", FALSE),
    R(258, "NewB", "", "B", "DOS 3.3 Type \"new B\"", FALSE)>>

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexString(n) == Digits[(n \div 16) + 1] \o Digits[(n % 16) + 1]
Reserved(who, n) == R(n, who \o "Reserved" \o HexString(n), "", "", who \o " reserved for future use " \o HexString(n), TRUE)
SosReserved == TLCEval({Reserved("SOS", n) : n \in {13, 14} \cup 18..24 \cup 28..191})
ProdosReserved == TLCEval({Reserved("ProDOS", n) : n \in 192..238})

Table == TLCEval({Named[i] : i \in 1..Len(Named)} \cup SosReserved \cup ProdosReserved)
ByCode == TLCEval([c \in {r.code : r \in Table} |-> CHOOSE r \in Table : r.code = c])

\* The strings a type can be called by.
NamesOf(r) == {r.name, r.three, r.one} \ {""}
AllNames == TLCEval(UNION {NamesOf(r) : r \in Table})

\* What a string stands for, given the order of the listing: the code of the
\* first type it can call, or -1.
RECURSIVE FirstCalled(_, _, _)
FirstCalled(listing, x, i) ==
    IF i > Len(listing) THEN -1
    ELSE IF x \in NamesOf(listing[i]) THEN listing[i].code
    ELSE FirstCalled(listing, x, i + 1)
Resolve(listing, x) == FirstCalled(listing, x, 1)

\* The short listing.
Short(listing) == SelectSeq(listing, LAMBDA r : ~ r.extra)
=============================================================================
