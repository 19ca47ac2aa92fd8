SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2}
  MaxPre = 3
  MaxRun = 3
INVARIANTS Reproducible SameState
CHECK_DEADLOCK FALSE
