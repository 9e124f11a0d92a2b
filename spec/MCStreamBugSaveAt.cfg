SPECIFICATION Spec
CONSTANTS
  s1 = s1
  MaxN = 3
  Slots = {s1}
  D = 3
  MaxAtt = 0
  MaxMarks = 2
  Policy = "any"
  FixSaveAt = FALSE
  FixAdvTo = TRUE
VIEW View
INVARIANTS Fidelity CursorInBuffer EofOnlyAtEnd Reachable CursorReachable Lazy Once MarkersCovered
PROPERTY Refines
CHECK_DEADLOCK FALSE
