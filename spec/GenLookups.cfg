SPECIFICATION Spec
CONSTANTS
  NumSlots <- McSlots
  Chars <- TextChars
  MaxLen = 0
  GenLen = 4
  Gen = TRUE
INVARIANTS Agrees NamesLead
CHECK_DEADLOCK FALSE
