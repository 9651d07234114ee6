SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Exhaustive = FALSE
CHECK_DEADLOCK FALSE
