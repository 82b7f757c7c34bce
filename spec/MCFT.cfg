CONSTANTS MaxLen = 4 MaxSteps = 3
INIT Init
NEXT Next
INVARIANT OfTheSpace
INVARIANT Tiles
CHECK_DEADLOCK FALSE
