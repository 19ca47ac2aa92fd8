SPECIFICATION Spec
CONSTANTS
  Limits = {1, 3, 5, 8}
  Waves = {1, 2, 3, 4, 7}
  Models <- M1
  MaxHist = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
