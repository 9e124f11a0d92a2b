SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Chars = {"(", ")", "[", "]", "|", "a"}
  TypeSets <- Types
INVARIANTS InBounds SilentIsBalanced BalancedIsSilent EofReports ReportsNameOpened OpenWhileRunning UnmatchedOnlyFirst
CHECK_DEADLOCK FALSE
