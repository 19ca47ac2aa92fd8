SPECIFICATION Spec
CONSTANTS
  N = 9
  W = 3
  REACH <- R1
  MaxPeaks = 3
INVARIANTS Computed Unique OnDetector FromItsWindow Independent Ordered Local OffDropped
CHECK_DEADLOCK FALSE
