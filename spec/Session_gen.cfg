SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = TRUE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
