CONSTANTS Kind = "field" Inplace = TRUE MaxSteps = 5
INIT Init
NEXT Next
INVARIANTS RelationExact Whole NotInplaceIntact ResultsMove
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
