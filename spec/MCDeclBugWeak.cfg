SPECIFICATION Spec
CONSTANTS
  NumHandles = 2
  NumParsers = 1
  Length = 6
  MaxDecls = 3
  WeakDefs = TRUE
  Copies = FALSE
INVARIANTS Kept NotFreed Released
CHECK_DEADLOCK FALSE
