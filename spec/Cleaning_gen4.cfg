INIT Init
NEXT NoNext
CONSTANTS MaxLen = 4 Emit = TRUE
INVARIANTS EmitInput
CHECK_DEADLOCK FALSE
