SPECIFICATION Spec
CONSTANTS
  Slots = {1}
  MaxFed = 3
  Clean <- NoClean
INVARIANTS Good Errors Live
CHECK_DEADLOCK FALSE
