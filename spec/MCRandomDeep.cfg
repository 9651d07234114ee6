SPECIFICATION Spec
CONSTANTS
  MaxDraws = 6
  Seeds <- SomeSeeds
INVARIANTS OwnStream Untouched Separate
CHECK_DEADLOCK FALSE
