SPECIFICATION Spec
CONSTANTS
  SortLens = {4, 8}
  MaxReduce = 5
  Clamped <- ClampedSelf
INVARIANTS Sorted Kept Reduced Saturates SplitStore
CHECK_DEADLOCK FALSE
