CONSTANTS MaxLen = 5 MaxSteps = 4
INIT Init
NEXT Next
INVARIANT OfTheSpace
INVARIANT Tiles
CHECK_DEADLOCK FALSE
