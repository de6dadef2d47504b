SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANTS Total DefaultIsNothing Rewritten
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
