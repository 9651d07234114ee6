SPECIFICATION Spec
CONSTANTS
  Values <- ValC
  IRs <- IRC
  BlockSizes = {1, 2, 4}
  MaxFeed = 4
  MaxHist = 5
  ClearSaved = TRUE
INVARIANT NeverRefused
CHECK_DEADLOCK FALSE
