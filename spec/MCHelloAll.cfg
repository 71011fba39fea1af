SPECIFICATION Spec
CONSTANTS
  NumSectors = 4
  FileNums = {1}
  MapPos = {1}
  SecBytes = 256
  Asked = {}
  Sym1 = 3
  Sym2 = 4
  NamesFile <- NoNames
  NumSlots = 4
  Files <- AllFiles
  PageNos <- AllPages
  Offsets = {0, 1, 255, 256}
  Gen = FALSE
INVARIANTS Right FitsASector
CHECK_DEADLOCK FALSE
