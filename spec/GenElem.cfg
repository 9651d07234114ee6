SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
CHECK_DEADLOCK FALSE
