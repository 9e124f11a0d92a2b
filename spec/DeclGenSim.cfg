SPECIFICATION Spec
CONSTANTS
  NumHandles = 4
  NumParsers = 2
  NumInputs = 4
  Guarded = 3
  Templates = 6
  MaxDecls = 5
  Length = 18
  Random = TRUE
INVARIANT Write
CHECK_DEADLOCK FALSE
