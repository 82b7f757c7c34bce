CONSTANTS Kind = "field" Inplace = TRUE MaxSteps = 4
INIT Init
NEXT Next
INVARIANTS RelationExact Whole NotInplaceIntact ResultsMove
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
