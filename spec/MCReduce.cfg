SPECIFICATION Spec
CONSTANTS
  W = 4
  Vals <- ValsSmall
  MaxLen = 5
  Bins = 2
INVARIANTS SameResult Counted Conserved RightBin
CHECK_DEADLOCK FALSE
