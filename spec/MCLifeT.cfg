CONSTANTS V = {1, 2} MaxObjs = 3 MaxSnaps = 2 MaxSteps = 7
INIT Init
NEXT Next
VIEW View
INVARIANTS EvalIsLastSwitch TrainIsCurrent StoredIffEval
PROPERTY Frame
CHECK_DEADLOCK FALSE
