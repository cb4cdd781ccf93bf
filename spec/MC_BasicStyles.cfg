INIT Init
NEXT Next
INVARIANTS Meaning Grouping
CHECK_DEADLOCK FALSE
