SPECIFICATION Spec
CONSTANTS
  Variants = {0,5}
  Sizes = {1,2,3,4,5}
  MaxOps = 0
  Exhaustive = TRUE
CHECK_DEADLOCK FALSE
