SPECIFICATION Spec
CONSTANTS
  NumSlots <- McSlots
  Chars <- TextChars
  MaxLen = 5
  GenLen = 0
  Gen = FALSE
INVARIANTS Agrees NamesLead
CHECK_DEADLOCK FALSE
