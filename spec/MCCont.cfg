CONSTANTS MaxSteps = 2
INIT Init
NEXT Next
INVARIANT ValuesFitTypes
INVARIANT Grouping
CHECK_DEADLOCK FALSE
