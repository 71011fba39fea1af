SPECIFICATION Spec
CONSTANTS
  N = 5
  Slots = 1
  SlotValues = {}
  Gen = TRUE
  Depth = 3
INVARIANTS Faithful Answers Printed
CHECK_DEADLOCK FALSE
