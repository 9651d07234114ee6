SPECIFICATION Spec
CONSTANTS
  MaxSt = 2
  NSlots = 2
  MaxOps = 4
INVARIANTS Inside ShapeFits KeptAlive FreedOnce Laws RangeArithmetic
CHECK_DEADLOCK FALSE
