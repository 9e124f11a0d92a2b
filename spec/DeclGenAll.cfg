SPECIFICATION Spec
CONSTANTS
  NumHandles = 2
  NumParsers = 1
  NumInputs = 1
  Guarded = 1
  Templates = 2
  MaxDecls = 2
  Length = 5
  Random = FALSE
INVARIANT Write
CHECK_DEADLOCK FALSE
