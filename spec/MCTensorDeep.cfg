SPECIFICATION Spec
CONSTANTS
  MaxSt = 3
  NSlots = 2
  MaxOps = 5
INVARIANTS Inside ShapeFits KeptAlive FreedOnce Laws RangeArithmetic
CHECK_DEADLOCK FALSE
