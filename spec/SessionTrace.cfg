INIT Init
NEXT Step
CHECK_DEADLOCK FALSE
POSTCONDITION Whole
