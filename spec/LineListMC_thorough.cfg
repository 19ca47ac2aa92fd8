SPECIFICATION Spec
CONSTANTS
  Waves = {1, 2, 4, 5}
  Ints = {1, 2}
  Elems = {"he", "ne"}
  Len1 = 3
  Ns <- MCNsT
  Ranges <- MCRangesT
  Ds = {0, 1, 2, 3}
INVARIANTS IntensityStage BrightestStage Sorted Result Apart
CHECK_DEADLOCK FALSE
