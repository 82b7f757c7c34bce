CONSTANTS MaxN = 7 MaxSteps = 5 MaxFields = 5
INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT OneStore
PROPERTY OnlyShared
CHECK_DEADLOCK FALSE
