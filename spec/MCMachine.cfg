SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5000
  Bug = ""
  Streaming = FALSE
INVARIANTS ITypeOK IAsSem ILazy IFailConsumesNothing INeverBackwards IRecoveredHasErrors ISuccessHasNone IRecoveryHonest IFailureSane ITerminates IVoid ILocations
