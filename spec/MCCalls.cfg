SPECIFICATION CSpec
CONSTANTS
  MaxSteps = 5000
  Bug = ""
  Streaming = FALSE
INVARIANTS ITypeOK ITerminates ICalls
