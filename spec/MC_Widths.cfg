SPECIFICATION Spec
INVARIANTS WithinWidth OneLine
CHECK_DEADLOCK FALSE
