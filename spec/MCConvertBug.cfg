SPECIFICATION Spec
CONSTANTS
  Near <- Trunc
  Scales = {1, 3, 7, 15, 31, 127, 255}
  MaxCh = 4
  MaxN = 4
INVARIANTS InRange FullScale RoundTrip Odd
PROPERTY Monotone
CHECK_DEADLOCK FALSE
