SPECIFICATION Spec
CONSTANTS Cases <- QuickCases Values = {0, 5}
INVARIANT NoViolation
CHECK_DEADLOCK FALSE
