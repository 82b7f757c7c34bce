CONSTANTS V = {1, 2} MaxObjs = 3 MaxSnaps = 1 MaxStat = 2 MaxSteps = 6 Alias = FALSE
INIT Init
NEXT Next
INVARIANTS Refines Frozen Separate
CHECK_DEADLOCK FALSE
