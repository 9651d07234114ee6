SPECIFICATION Spec
INVARIANTS Values Limits
CHECK_DEADLOCK FALSE
