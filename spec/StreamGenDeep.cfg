SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  MinN = 0
  MaxN = 2
  D = 2
  MaxAtt = 1
  Length = 4
INVARIANT StreamOK Write
CHECK_DEADLOCK FALSE
