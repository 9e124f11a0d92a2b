SPECIFICATION Spec
CONSTANTS
  s1 = s1
  s2 = s2
  MaxN = 10
  Slots = {s1, s2}
  D = 3
  MaxAtt = 0
  MaxMarks = 2
  Policy = "double"
  FixSaveAt = TRUE
  FixAdvTo = TRUE
VIEW View
INVARIANTS Fidelity CursorInBuffer EofOnlyAtEnd Reachable CursorReachable Lazy Once MarkersCovered Bounded
PROPERTY Refines
CHECK_DEADLOCK FALSE
