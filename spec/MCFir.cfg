SPECIFICATION Spec
CONSTANTS
  Values <- VS
  TapSets <- TS
  MaxBlock = 2
  MaxHist = 3
INVARIANT BlockIndependent
CHECK_DEADLOCK FALSE
