SPECIFICATION Spec
CONSTANTS MaxThreads = 4
 MaxOps = 22
CHECK_DEADLOCK FALSE
