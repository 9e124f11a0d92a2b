SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5000
  Bug = "rep"
  Streaming = FALSE
INVARIANTS ITypeOK IAsSem ILazy IFailConsumesNothing INeverBackwards IRecoveredHasErrors ISuccessHasNone IRecoveryHonest IFailureSane ITerminates
