SPECIFICATION Spec
CONSTANTS
  NumSlots = 2
  NumInputs = 2
  Length = 4
  Hooks = FALSE
INVARIANT Write
CHECK_DEADLOCK FALSE
