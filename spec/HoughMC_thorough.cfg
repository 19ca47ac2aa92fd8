SPECIFICATION Spec
CONSTANTS
  NData = 3
  MaxHist = 5
  Generating = FALSE
INVARIANTS CountedOnce Rankable Restored
PROPERTY ExtendAppends
VIEW View
CHECK_DEADLOCK FALSE
