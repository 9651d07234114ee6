SPECIFICATION HugeSpec
CONSTANTS MaxOps = 1
CHECK_DEADLOCK FALSE
