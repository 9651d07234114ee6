SPECIFICATION Spec
CONSTANTS
  MaxDraws = 4
  Seeds <- SomeSeeds
INVARIANTS OwnStream Untouched Separate
CHECK_DEADLOCK FALSE
