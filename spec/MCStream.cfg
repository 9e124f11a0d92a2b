SPECIFICATION Spec
CONSTANTS
  s1 = s1
  s2 = s2
  MaxN = 3
  Slots = {s1, s2}
  D = 3
  MaxAtt = 1
  MaxMarks = 4
  Policy = "any"
  FixSaveAt = TRUE
  FixAdvTo = TRUE
VIEW View
INVARIANTS Fidelity CursorInBuffer EofOnlyAtEnd Reachable CursorReachable Lazy Once MarkersCovered
PROPERTY Refines
SYMMETRY Symmetric
CHECK_DEADLOCK FALSE
