SPECIFICATION Spec
INVARIANTS Agree Facts
CHECK_DEADLOCK FALSE
