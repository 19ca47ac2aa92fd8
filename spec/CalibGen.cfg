SPECIFICATION Spec
CONSTANTS
  Waves = {1, 2, 3, 4, 5}
  MaxLines = 5
  MaxHist = 14
  Generating = TRUE
INVARIANTS FitUsesCurrentLines FreshUnlessBehindItsBack Emit
CHECK_DEADLOCK FALSE
