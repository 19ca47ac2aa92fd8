SPECIFICATION Spec
CONSTANTS
  MaxVal = 6
  MaxHist = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
