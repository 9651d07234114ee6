SPECIFICATION Spec
CONSTANTS
  MaxOps = 26
CHECK_DEADLOCK FALSE
