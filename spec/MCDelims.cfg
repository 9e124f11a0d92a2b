SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Chars = {"(", ")", "[", "]", "|", "a"}
  TypeSets <- Types
INVARIANTS InBounds SilentIsBalanced BalancedIsSilent EofReports ReportsNameOpened OpenWhileRunning UnmatchedOnlyFirst
CHECK_DEADLOCK FALSE
