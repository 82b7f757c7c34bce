CONSTANTS Kind = "point" Inplace = TRUE MaxSteps = 2
INIT Init
NEXT Next
INVARIANTS RelationExact Whole NotInplaceIntact ResultsMove
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
