SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxHist = 8
  Generating = TRUE
INVARIANTS Sticky NeverInvalid OneBackend Emit
CHECK_DEADLOCK FALSE
