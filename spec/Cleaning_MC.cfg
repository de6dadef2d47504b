SPECIFICATION Spec
CONSTANTS MaxLen = 3 Emit = FALSE
INVARIANTS SortCorrect CleanCorrect Idempotent NothingLost
CHECK_DEADLOCK FALSE
