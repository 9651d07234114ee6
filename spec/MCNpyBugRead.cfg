SPECIFICATION Spec
CONSTANTS
  Fits <- AnyFits
  MaxLen = 4
  MaxPart = 2
INVARIANTS Ends Stops Complete NoFalseAlarm
CHECK_DEADLOCK FALSE
