SPECIFICATION Spec
CONSTANTS
  NumSectors = 4
  FileNums = {1}
  MapPos = {1}
  SecBytes = 256
  Asked = {}
  Sym1 = 3
  Sym2 = 4
  NamesFile <- NoNames
  NumSlots = 4
  Files = {1, 2, 5, 9, 10, 127, 128, 223, 253}
  PageNos = {0, 1, 8, 32, 96, 127, 128, 191, 192, 254, 255}
  Offsets = {0, 1, 255, 256, 4660}
  Gen = FALSE
INVARIANTS Right FitsASector
PROPERTY Finishes
CHECK_DEADLOCK FALSE
