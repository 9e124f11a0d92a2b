SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1, 2}
  MinN = 2
  MaxN = 12
  D = 6
  MaxAtt = 2
  Length = 25
INVARIANT StreamOK Write
CHECK_DEADLOCK FALSE
