SPECIFICATION Spec
CONSTANTS MaxN = 14
INVARIANTS RoundTrip IndexSymmetric
CHECK_DEADLOCK FALSE
