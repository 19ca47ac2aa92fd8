SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2}
  MaxPre = 4
  MaxRun = 4
INVARIANTS Reproducible SameState
CHECK_DEADLOCK FALSE
