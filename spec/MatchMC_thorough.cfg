SPECIFICATION Spec
CONSTANTS
  NPeaks = 3
  MaxW = 3
INVARIANTS Result SameAsFunction UncontestedMatched
CHECK_DEADLOCK FALSE
