SPECIFICATION Spec
CONSTANTS
  Switch <- Rise
INVARIANTS Values Limits
CHECK_DEADLOCK FALSE
