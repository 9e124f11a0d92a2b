SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS NoErrorLost KindTellsErrors FailureStays Views
PROPERTY Worse
CHECK_DEADLOCK FALSE
