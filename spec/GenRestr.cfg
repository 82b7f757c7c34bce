INIT Init
NEXT Next
CONSTANTS MaxLen = 8 MaxSize = 8
CHECK_DEADLOCK FALSE
