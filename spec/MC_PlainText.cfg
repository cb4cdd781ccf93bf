INIT Init
NEXT Next
INVARIANTS Shows
CHECK_DEADLOCK FALSE
