SPECIFICATION Spec
CONSTANTS
  Limits = {1, 3, 5, 8}
  Waves = {1, 2, 3, 4, 7}
  Models <- M1
  MaxHist = 5
VIEW View
INVARIANTS LimitsOrdered Answered Inverts
PROPERTIES RejectedKeeps NotGivenKept OnlyOne
CHECK_DEADLOCK FALSE
