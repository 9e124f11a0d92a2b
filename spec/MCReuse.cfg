SPECIFICATION Spec
CONSTANTS
  NumSlots = 2
  NumInputs = 2
  Size = 2
  Length = 5
  Shared = FALSE
INVARIANT Independent
CHECK_DEADLOCK FALSE
