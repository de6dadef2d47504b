SPECIFICATION Spec
CONSTANTS Depth = 2
 Emit = FALSE
INVARIANTS Functional Repeatable Versions
CHECK_DEADLOCK FALSE
