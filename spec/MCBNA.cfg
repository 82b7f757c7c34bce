CONSTANTS B = {1, 9} Mom <- MinusOne MaxSteps = 6
INIT Init
NEXT Next
INVARIANTS StoredIsWeightedAverage Counted Bounded
PROPERTY EvalChangesNothing
CHECK_DEADLOCK FALSE
