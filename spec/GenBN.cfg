CONSTANTS MaxLen = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
