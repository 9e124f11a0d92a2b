SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5000
  Bug = "trymap"
  Streaming = FALSE
INVARIANTS ITypeOK IAsSem ILazy IFailConsumesNothing INeverBackwards IRecoveredHasErrors ISuccessHasNone IRecoveryHonest IFailureSane ITerminates
