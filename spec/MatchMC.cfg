SPECIFICATION Spec
CONSTANTS
  NPeaks = 2
  MaxW = 3
INVARIANTS Result SameAsFunction UncontestedMatched
PROPERTY Ends
CHECK_DEADLOCK FALSE
