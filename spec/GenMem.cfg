SPECIFICATION Spec
CONSTANTS
  MaxOps = 40
CHECK_DEADLOCK FALSE
