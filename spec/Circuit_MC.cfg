SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = FALSE
INVARIANTS TypeOK ReadersNeverRaise LastNameStays
PROPERTIES LockedNeverChanges WritersRaiseIffLocked OnlyTargetChanges UnlockRestores NamesAreLabels
CHECK_DEADLOCK FALSE
