SPECIFICATION Spec
CONSTANTS
  s1 = s1
  MaxN = 2
  Slots = {s1}
  D = 2
  MaxAtt = 0
  MaxMarks = 2
  Policy = "any"
  FixSaveAt = TRUE
  FixAdvTo = FALSE
VIEW View
INVARIANTS Fidelity CursorInBuffer EofOnlyAtEnd Reachable CursorReachable Lazy Once MarkersCovered
PROPERTY Refines
CHECK_DEADLOCK FALSE
