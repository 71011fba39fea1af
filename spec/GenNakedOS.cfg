SPECIFICATION Spec
CONSTANTS
  NumSectors = 8
  NumFree = 4
  FileNums <- McFiles
  MapPos = {1}
  SecBytes = 256
  Asked <- AllAsked
  Sym1 = 3
  Sym2 = 4
  NamesFile <- McFileOf
  NumSlots = 2
  TargetNames <- McTargets
  Sizes = {1, 2}
  MaxHist = 5
  Generating = TRUE
VIEW FileView
INVARIANT Invariant Emit
CONSTRAINT Short
CHECK_DEADLOCK FALSE
