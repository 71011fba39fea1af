SPECIFICATION Spec
CONSTANTS
  N = 17
  Slots = 1
  SlotValues = {0, 257}
  Gen = FALSE
  Depth = 0
INVARIANTS Faithful Answers SlotsKept TrackMap
CHECK_DEADLOCK FALSE
