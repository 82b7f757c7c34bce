CONSTANTS V = {1, 2} MaxObjs = 3 MaxSnaps = 1 MaxSteps = 5
INIT Init
NEXT Next
VIEW View
INVARIANTS EvalIsLastSwitch TrainIsCurrent StoredIffEval
PROPERTY Frame
CHECK_DEADLOCK FALSE
