SPECIFICATION Spec
CONSTANTS
  SortLens = {4, 8, 16}
  MaxReduce = 8
INVARIANTS Sorted Kept Reduced Saturates SplitStore
CHECK_DEADLOCK FALSE
