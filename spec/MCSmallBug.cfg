SPECIFICATION Spec
CONSTANTS
  Cap = 2
  MaxLen = 3
  Range = 2
  Own <- OwnLess
INVARIANTS Refines NoBlockLost
CHECK_DEADLOCK FALSE
