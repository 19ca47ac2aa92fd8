SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2, 3}
  MaxPre = 0
  MaxRun = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
