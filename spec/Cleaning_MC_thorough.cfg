SPECIFICATION Spec
CONSTANTS MaxLen = 4 Emit = FALSE
INVARIANTS SortCorrect CleanCorrect Idempotent NothingLost
CHECK_DEADLOCK FALSE
