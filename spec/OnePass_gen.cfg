SPECIFICATION Spec
CONSTANTS Vmax = 2 MaxLen = 9 Turns = 3 Emit = TRUE
INVARIANTS EmitSweep
CHECK_DEADLOCK FALSE
