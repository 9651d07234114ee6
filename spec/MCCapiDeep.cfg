SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  MaxFed = 4
INVARIANTS Good Errors Live
CHECK_DEADLOCK FALSE
