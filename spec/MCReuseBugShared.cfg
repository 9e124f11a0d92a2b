SPECIFICATION Spec
CONSTANTS
  NumSlots = 2
  NumInputs = 2
  Size = 2
  Length = 5
  Shared = TRUE
INVARIANT Independent
CHECK_DEADLOCK FALSE
