SPECIFICATION Spec
CONSTANTS
  N = 11
  Slots = 2
  SlotValues = {0, 255, 256, 513}
  Gen = FALSE
  Depth = 0
INVARIANTS Faithful Answers SlotsKept TrackMap
CHECK_DEADLOCK FALSE
