INIT Init
NEXT Next
INVARIANTS AsDocumented Places ReadsBack TooLong
CHECK_DEADLOCK FALSE
