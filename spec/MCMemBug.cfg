SPECIFICATION Spec
CONSTANTS
  Zero <- Reread
  Threads = {1, 2}
  Sizes = {0, 5}
  MaxId = 2
INVARIANTS Counts Once AllFreed Books
CHECK_DEADLOCK FALSE
