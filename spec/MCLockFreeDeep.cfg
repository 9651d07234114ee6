SPECIFICATION Spec
CONSTANTS
  Caps = {1,2,3}
  MaxReq = 3
  MaxCalls = 2
  Fences = TRUE
INVARIANTS RaceFree ReturnsAllowed Bounded
CHECK_DEADLOCK FALSE
