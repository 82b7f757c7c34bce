INIT Init
NEXT Next
CONSTANTS Ns = {1,2,3,4,5,6} Axes = {0,2520,630} MaxF = 7
INVARIANTS Complete Offsets0 Transposed Orders
PROPERTY Grows
CHECK_DEADLOCK FALSE
