SPECIFICATION Spec
CONSTANTS
  MaxVal = 4
  MaxHist = 9
VIEW View
PROPERTIES ArgsKept MutateUnseen OnlyReached Separate
CHECK_DEADLOCK FALSE
