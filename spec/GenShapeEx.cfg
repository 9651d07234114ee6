SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Exhaustive = TRUE
CHECK_DEADLOCK FALSE
