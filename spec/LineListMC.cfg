SPECIFICATION Spec
CONSTANTS
  Waves = {1, 2, 4}
  Ints = {1, 2}
  Elems = {"he", "ne"}
  Len1 = 3
  Ns <- MCNs
  Ranges <- MCRanges
  Ds = {0, 2}
INVARIANTS IntensityStage BrightestStage Sorted Result Apart
PROPERTY Ends
CHECK_DEADLOCK FALSE
