SPECIFICATION Spec
CONSTANTS
  MaxVal = 3
  MaxHist = 6
VIEW View
PROPERTIES ArgsKept MutateUnseen OnlyReached Separate
CHECK_DEADLOCK FALSE
