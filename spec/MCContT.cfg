CONSTANTS MaxSteps = 3
INIT Init
NEXT Next
INVARIANT ValuesFitTypes
INVARIANT Grouping
CHECK_DEADLOCK FALSE
