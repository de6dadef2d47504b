SPECIFICATION Spec
CONSTANTS Cases <- ThoroughCases Values = {0, 1, 5}
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
