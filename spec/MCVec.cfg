SPECIFICATION Spec
CONSTANTS
  SortLens = {4, 8}
  MaxReduce = 5
INVARIANTS Sorted Kept Reduced Saturates SplitStore
CHECK_DEADLOCK FALSE
