SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
