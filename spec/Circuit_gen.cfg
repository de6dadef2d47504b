SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = TRUE
INVARIANTS TypeOK Complete
CHECK_DEADLOCK FALSE
