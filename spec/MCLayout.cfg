CONSTANTS MaxFields = 2 MaxIrreps = 2
INIT Init
NEXT Next
CONSTRAINT Small
INVARIANTS Numbered Placed Complete Lookup
CHECK_DEADLOCK FALSE
