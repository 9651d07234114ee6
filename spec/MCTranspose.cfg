SPECIFICATION Spec
CONSTANTS MaxSide = 13
INVARIANTS Result Permuted Involution
PROPERTY Ends
CHECK_DEADLOCK FALSE
