SPECIFICATION Spec
CONSTANTS
  NumSectors = 4
  FileNums = {1}
  MapPos = {1}
  SecBytes = 256
  Asked = {}
  Sym1 = 3
  Sym2 = 4
  NamesFile <- NoNames
  NumSlots = 4
  Files = {1}
  PageNos = {1}
  Offsets = {0}
  Gen = TRUE
CHECK_DEADLOCK FALSE
