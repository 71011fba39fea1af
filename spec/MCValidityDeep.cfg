SPECIFICATION Spec
CONSTANTS
  Slots <- AllSlots
  Clock <- SomeClock
  MaxFiles = 2
  MaxDamage = 2
  Gen = FALSE
INVARIANTS Exactly Conforming
CHECK_DEADLOCK FALSE
