INIT Init
NEXT Stay
CHECK_DEADLOCK FALSE
