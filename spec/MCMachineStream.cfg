SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5000
  Bug = ""
  Streaming = TRUE
INVARIANTS ITypeOK IAsSem ILazy IFailConsumesNothing INeverBackwards IRecoveredHasErrors ISuccessHasNone IRecoveryHonest IFailureSane ITerminates ISuffix IVoid
