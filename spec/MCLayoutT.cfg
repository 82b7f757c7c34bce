CONSTANTS MaxFields = 3 MaxIrreps = 3
INIT Init
NEXT Next
CONSTRAINT Small
INVARIANTS Numbered Placed Complete Lookup
CHECK_DEADLOCK FALSE
