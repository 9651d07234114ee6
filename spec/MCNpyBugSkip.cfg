SPECIFICATION Spec
CONSTANTS
  Ahead <- StuckAhead
  MaxLen = 3
  MaxPart = 2
INVARIANTS Ends Stops Complete NoFalseAlarm
CHECK_DEADLOCK FALSE
