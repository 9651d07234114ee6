SPECIFICATION Spec
CONSTANTS
  Sizes = {1,2,3,4}
  MaxN = 9
  MaxOps = 4
INVARIANTS Ok Recent Inside
CHECK_DEADLOCK FALSE
