SPECIFICATION Spec
CONSTANTS
  Atlases = {1, 2}
  Waves = {1, 2, 3, 4, 5, 6}
  Elems = {"He", "Ne", "Hg"}
  Tols = {1, 2, 3}
  MaxLines = 12
  MaxHist = 12
  Generating = TRUE
INVARIANTS Exact Ordered Aligned RemovalExact Emit
CHECK_DEADLOCK FALSE
