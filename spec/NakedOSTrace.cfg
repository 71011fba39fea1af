SPECIFICATION TraceSpec
CONSTANTS
  NumSectors = 560
  FileNums <- RealFileNums
  MapPos = {10, 11, 12}
  SecBytes = 256
  Asked <- AskedNow
  Sym1 = 3
  Sym2 = 4
  NamesFile <- RealFileOf
  NumSlots = 819
VIEW LineView
INVARIANT Conforms
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
