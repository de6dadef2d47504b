SPECIFICATION Spec
CONSTANT Steps = 6
INVARIANTS Total DefaultIsNothing Rewritten
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
