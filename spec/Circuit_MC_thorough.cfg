SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE
INVARIANTS TypeOK ReadersNeverRaise LastNameStays
PROPERTIES LockedNeverChanges WritersRaiseIffLocked OnlyTargetChanges UnlockRestores NamesAreLabels
CHECK_DEADLOCK FALSE
