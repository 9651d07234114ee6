SPECIFICATION Spec
CONSTANTS
  Extents = {0, 1, 2, 3, 1000000}
  MaxRank = 2
  BoxMax = 3
INVARIANTS Symmetric Grouping Idempotent Assignable InOrder Complete Bijection
CHECK_DEADLOCK FALSE
