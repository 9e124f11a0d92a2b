SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5000
  Bug = "lead"
  Streaming = FALSE
INVARIANTS ITypeOK IAsSem ILazy IFailConsumesNothing INeverBackwards IRecoveredHasErrors ISuccessHasNone IRecoveryHonest IFailureSane ITerminates
