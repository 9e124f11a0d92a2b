SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  MinN = 0
  MaxN = 3
  D = 2
  MaxAtt = 1
  Length = 3
INVARIANT StreamOK Write
CHECK_DEADLOCK FALSE
