SPECIFICATION Spec
CONSTANTS
  Waves = {1, 2}
  MaxLines = 2
  MaxHist = 5
  Generating = FALSE
INVARIANTS FitUsesCurrentLines FreshUnlessBehindItsBack PolygonMonotone
PROPERTY OneAtlasAtATime
VIEW View
CHECK_DEADLOCK FALSE
