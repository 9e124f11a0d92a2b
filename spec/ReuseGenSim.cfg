SPECIFICATION Spec
CONSTANTS
  NumSlots = 3
  NumInputs = 3
  Length = 14
  Hooks = TRUE
INVARIANT Write
CHECK_DEADLOCK FALSE
