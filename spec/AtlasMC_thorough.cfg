SPECIFICATION Spec
CONSTANTS
  Atlases = {1, 2}
  Waves = {1, 2, 3}
  Elems = {"He", "Ne"}
  Tols = {1, 2}
  MaxLines = 3
  MaxHist = 3
  Generating = FALSE
INVARIANTS Exact Ordered Aligned RemovalExact
PROPERTIES Isolation RemovalEnds
VIEW View
CHECK_DEADLOCK FALSE
