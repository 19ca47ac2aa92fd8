SPECIFICATION Spec
CONSTANTS
  Vals <- MCVals
  MaxHist = 4
  Generating = FALSE
INVARIANTS Sticky NeverInvalid OneBackend LimitsOrdered
PROPERTY Atomic
VIEW View
CHECK_DEADLOCK FALSE
