SPECIFICATION Spec
INVARIANTS Refines Bounded
CHECK_DEADLOCK FALSE
