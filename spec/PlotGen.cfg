SPECIFICATION Spec
CONSTANTS
  Names = {"", "a", "b.c", "sub/d"}
  TypeSets = {{}, {"png"}, {"jpg"}, {"pdf"}, {"iframe"}, {"svg", "iframe", "gif"}, {"png", "html"}, {"jpg", "pdf", "svg"}}
  MaxHist = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
