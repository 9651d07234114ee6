SPECIFICATION Spec
CONSTANTS
  MaxTurns = 2
  Mirror = TRUE
INVARIANTS There OnCircle
CHECK_DEADLOCK FALSE
