INIT Init
NEXT Next
CONSTANTS
  Vals = {0, 11, 13}
  Cases = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
INVARIANT Equivariant
INVARIANT FieldByField
INVARIANT Accepted
CHECK_DEADLOCK FALSE
