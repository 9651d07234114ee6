SPECIFICATION Spec
CONSTANTS
  MaxOps = 25
CHECK_DEADLOCK FALSE
