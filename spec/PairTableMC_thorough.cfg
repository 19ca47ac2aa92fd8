SPECIFICATION Spec
CONSTANTS
  Pixels = {1, 2, 4, 5}
  Waves = {1, 2}
  MaxHist = 6
  Start = 2
VIEW View
INVARIANTS InOrder NothingElse Positions RemoveUndoesAdd InsertIsInsert RefitPossible
PROPERTY RefitIsCurrent
CHECK_DEADLOCK FALSE
