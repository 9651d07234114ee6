SPECIFICATION Spec
CONSTANTS
  W = 4
  Vals <- ValsTwo
  MaxLen = 9
  Bins = 2
INVARIANTS SameResult Counted Conserved RightBin
CHECK_DEADLOCK FALSE
