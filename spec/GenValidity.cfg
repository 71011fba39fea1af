SPECIFICATION Spec
CONSTANTS
  Slots <- FewSlots
  Clock <- FewClock
  MaxFiles = 1
  MaxDamage = 2
  Gen = TRUE
INVARIANT Shown
CHECK_DEADLOCK FALSE
