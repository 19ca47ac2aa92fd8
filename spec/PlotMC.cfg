SPECIFICATION Spec
CONSTANTS
  Names = {"", "a"}
  TypeSets = {{}, {"png"}, {"iframe"}, {"svg", "iframe", "gif"}}
  MaxHist = 4
VIEW View
INVARIANTS JsonOnly NotFuture NeedsFit
PROPERTIES ReadOnly Writes PerType Kept
CHECK_DEADLOCK FALSE
