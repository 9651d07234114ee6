SPECIFICATION Spec
CONSTANTS
  Widths = {1, 2, 4}
  MaxLen = 6
  Level = 1
  Bcast <- BuggyBcast
INVARIANTS NoOverread Elementwise RangeOnly RowDone
CHECK_DEADLOCK FALSE
