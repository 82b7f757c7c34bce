INIT JInit
NEXT JNext
INVARIANT JCheck
CHECK_DEADLOCK FALSE
POSTCONDITION JDone
