SPECIFICATION Spec
CONSTANTS
  Level = 1
CHECK_DEADLOCK FALSE
