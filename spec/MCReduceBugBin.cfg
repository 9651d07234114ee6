SPECIFICATION Spec
CONSTANTS
  W = 4
  Vals <- ValsSmall
  MaxLen = 3
  Bins = 2
  CellU <- OffByOne
INVARIANTS SameResult Counted Conserved RightBin
CHECK_DEADLOCK FALSE
