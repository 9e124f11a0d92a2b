SPECIFICATION Spec
CONSTANTS
  s1 = s1
  MaxN = 7
  Slots = {s1}
  D = 2
  MaxAtt = 0
  MaxMarks = 2
  Policy = "double"
  FixSaveAt = TRUE
  FixAdvTo = TRUE
VIEW View
INVARIANTS Fidelity CursorInBuffer EofOnlyAtEnd Reachable CursorReachable Lazy Once MarkersCovered Bounded
PROPERTY Refines
CHECK_DEADLOCK FALSE
