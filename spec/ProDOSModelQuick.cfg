SPECIFICATION Spec
CONSTANTS
 Blocks = 6
 PerKey = 1
 PerBlk = 2
 Names = {"A", "B"}
 MaxDepth = 2
 MaxEntries = 2
INVARIANTS Valid FindsDirs ListsExactly
CHECK_DEADLOCK FALSE
