SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Keys = {11, 12}
 MaxOps = 4
 Locked = TRUE
INVARIANTS Refines OnePlanPerKey Same
CHECK_DEADLOCK FALSE
