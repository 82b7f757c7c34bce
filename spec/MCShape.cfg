CONSTANTS MaxN = 9 MaxK = 5
INIT Init
NEXT Next
INVARIANTS Positive FloorExact CeilBound Inverse Monotone
CHECK_DEADLOCK FALSE
