SPECIFICATION Spec
CONSTANTS
  Caps = {1,2}
  MaxReq = 2
  MaxCalls = 2
  Fences = FALSE
INVARIANTS RaceFree ReturnsAllowed Bounded
CHECK_DEADLOCK FALSE
