INIT Init
NEXT Next
INVARIANT Meaning
CHECK_DEADLOCK FALSE
