SPECIFICATION CSpec
CONSTANTS
  MaxSteps = 5000
  Bug = "twice"
  Streaming = FALSE
INVARIANTS ITypeOK ITerminates ICalls
