SPECIFICATION Spec
CONSTANTS
  MW = 10
  MT = 7
  MP = 7
  MH = 5
INVARIANTS Plausible Inverts Exact
PROPERTIES Monotone Ordered
CHECK_DEADLOCK FALSE
