SPECIFICATION Spec
CONSTANTS
 Sectors = 6
 CatSectors <- MCCat
 PerCat = 1
 PerList = 2
 Names = {"A", "B", "C"}
 MaxLen = 3
 Values = {1}
INVARIANTS ListsExactly ReadsBack Apart
CHECK_DEADLOCK FALSE
