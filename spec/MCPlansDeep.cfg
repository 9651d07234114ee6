SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Keys = {11, 12, 13}
 MaxOps = 6
 Locked = TRUE
INVARIANTS Refines OnePlanPerKey Same
CHECK_DEADLOCK FALSE
