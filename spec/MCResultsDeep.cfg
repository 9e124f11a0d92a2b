SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS NoErrorLost KindTellsErrors FailureStays Views
PROPERTY Worse
CHECK_DEADLOCK FALSE
