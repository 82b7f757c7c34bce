CONSTANTS MaxLen = 12
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
