SPECIFICATION Spec
CONSTANTS
  N = 6
  Slots = 1
  SlotValues = {}
  Gen = TRUE
  Depth = 4
INVARIANTS Faithful Answers Printed
CHECK_DEADLOCK FALSE
