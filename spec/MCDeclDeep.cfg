SPECIFICATION Spec
CONSTANTS
  NumHandles = 3
  NumParsers = 1
  Length = 6
  MaxDecls = 3
  WeakDefs = FALSE
  Copies = FALSE
INVARIANTS Kept NotFreed Released
CHECK_DEADLOCK FALSE
