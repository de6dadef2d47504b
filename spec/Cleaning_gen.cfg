INIT Init
NEXT NoNext
CONSTANTS MaxLen = 3 Emit = TRUE
INVARIANTS EmitInput
CHECK_DEADLOCK FALSE
