INIT Init
NEXT Next
INVARIANTS Inside AtMostOnce NoErrors BadSeen FullWindow FociInside
CHECK_DEADLOCK FALSE
