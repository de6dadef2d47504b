SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = FALSE
INVARIANTS Functional Repeatable Versions
CHECK_DEADLOCK FALSE
