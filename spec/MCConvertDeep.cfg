SPECIFICATION Spec
CONSTANTS
  Scales = {1, 3, 7, 15, 31, 127, 255, 511, 2047, 8191}
  MaxCh = 4
  MaxN = 4
INVARIANTS HalfStep InRange FullScale RoundTrip Odd
PROPERTY Monotone
CHECK_DEADLOCK FALSE
