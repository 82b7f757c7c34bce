CONSTANTS MaxN = 4 MaxSteps = 4 MaxFields = 4
INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT OneStore
PROPERTY OnlyShared
CHECK_DEADLOCK FALSE
