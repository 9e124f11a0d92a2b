SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Counted Offsets Cycled
CHECK_DEADLOCK FALSE
