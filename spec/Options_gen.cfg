SPECIFICATION Spec
INVARIANTS Emit Known Told
CHECK_DEADLOCK FALSE
