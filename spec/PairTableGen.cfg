SPECIFICATION Spec
CONSTANTS
  Pixels = {1, 2, 4, 5, 7}
  Waves = {1, 2, 3}
  MaxHist = 8
  Start = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
