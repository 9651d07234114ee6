SPECIFICATION Spec
CONSTANTS
  MaxSide = 9
  Close <- NoExchange
INVARIANTS Result
CHECK_DEADLOCK FALSE
