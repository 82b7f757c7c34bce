CONSTANTS V = {1} MaxObjs = 3 MaxSnaps = 1 MaxStat = 2 MaxSteps = 5 Alias = TRUE
INIT Init
NEXT Next
INVARIANTS Refines Frozen Separate
CHECK_DEADLOCK FALSE
