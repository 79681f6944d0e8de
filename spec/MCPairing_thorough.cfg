CONSTANTS
  N = 10
  Lows = {0, 13, 20, 21, 27}
SPECIFICATION Spec
INVARIANTS Injective NeverBlocked
CHECK_DEADLOCK FALSE
