CONSTANTS Kind = "point" Inplace = FALSE MaxSteps = 5
INIT Init
NEXT Next
INVARIANTS RelationExact Whole NotInplaceIntact ResultsMove
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
