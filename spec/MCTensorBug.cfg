SPECIFICATION Spec
CONSTANTS
  MaxSt = 2
  NSlots = 2
  MaxOps = 1
  Resolve <- OldResolve
INVARIANTS RangeArithmetic
CHECK_DEADLOCK FALSE
