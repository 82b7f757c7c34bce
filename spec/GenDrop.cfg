CONSTANTS MaxLen = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
