SPECIFICATION Spec
CONSTANTS
  Slots <- FewSlots
  Clock <- FewClock
  MaxFiles = 2
  MaxDamage = 2
  Gen = FALSE
INVARIANTS Exactly Conforming
CHECK_DEADLOCK FALSE
