SPECIFICATION Spec
CONSTANTS
  Names = {"", "a"}
  TypeSets = {{}, {"png"}, {"iframe"}, {"svg", "iframe", "gif"}}
  MaxHist = 5
VIEW View
INVARIANTS JsonOnly NotFuture NeedsFit
PROPERTIES ReadOnly Writes PerType Kept
CHECK_DEADLOCK FALSE
