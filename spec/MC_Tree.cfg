INIT Init
NEXT Next
INVARIANTS Consecutive Separators FirstOverrideWins
CHECK_DEADLOCK FALSE
