SPECIFICATION Spec
CONSTANTS
  NumSectors = 8
  NumFree = 4
  FileNums <- McFiles
  MapPos = {1}
  SecBytes = 256
  Asked <- AllAsked
  Sym1 = 3
  Sym2 = 4
  NamesFile <- McFileOf
  NumSlots = 2
  TargetNames <- McTargets
  Sizes = {0, 1, 2, 5}
  MaxHist = 0
  Generating = FALSE
VIEW DiskView
INVARIANT Invariant
CHECK_DEADLOCK FALSE
