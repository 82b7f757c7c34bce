CONSTANTS MaxN = 24 MaxK = 9
INIT Init
NEXT Next
INVARIANTS Positive FloorExact CeilBound Inverse Monotone
CHECK_DEADLOCK FALSE
