INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Lawful Stable
