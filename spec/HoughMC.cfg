SPECIFICATION Spec
CONSTANTS
  NData = 2
  MaxHist = 4
  Generating = FALSE
INVARIANTS CountedOnce Rankable Restored
PROPERTY ExtendAppends
VIEW View
CHECK_DEADLOCK FALSE
