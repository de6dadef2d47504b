SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = TRUE
INVARIANTS TypeOK Complete
CHECK_DEADLOCK FALSE
