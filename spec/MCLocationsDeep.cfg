SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Counted Offsets Cycled
CHECK_DEADLOCK FALSE
