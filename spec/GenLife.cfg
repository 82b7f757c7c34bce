CONSTANTS MaxLen = 10
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
