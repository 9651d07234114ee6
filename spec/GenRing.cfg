SPECIFICATION Spec
CONSTANTS
  Variants = {0,1,2,3,4,5}
  Sizes = {1,2,3,4,5,7,8,16,33}
  MaxOps = 14
  Exhaustive = FALSE
CHECK_DEADLOCK FALSE
