SPECIFICATION Spec
CONSTANTS
  NData = 3
  MaxHist = 10
  Generating = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
