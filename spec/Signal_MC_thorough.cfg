SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
