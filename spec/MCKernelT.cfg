INIT Init
NEXT Next
CONSTANTS Ns = {1,2,3,4,5,6,7,8,9,10,12,16} Axes = {0,1260,2520,630,315,77} MaxF = 12
INVARIANTS Complete Offsets0 Transposed Orders
PROPERTY Grows
CHECK_DEADLOCK FALSE
