INIT Init
NEXT Next
CONSTANTS MaxSize = 12 MaxLen = 8
CHECK_DEADLOCK FALSE
