SPECIFICATION Spec
CONSTANTS
  NSlots = 4
  MaxOps = 18
  Variants = {0,1,2,3}
  MaxLen = 5
  Big = 24
CHECK_DEADLOCK FALSE
