SPECIFICATION Spec
CONSTANTS
  NumSlots <- McSlots
  Chars <- TextChars
  MaxLen = 7
  GenLen = 0
  Gen = FALSE
INVARIANTS Agrees NamesLead
CHECK_DEADLOCK FALSE
