SPECIFICATION Spec
CONSTANTS
  MaxDraws = 3
  OthersU <- Leak
  Seeds <- SomeSeeds
INVARIANTS OwnStream Untouched Separate
CHECK_DEADLOCK FALSE
