SPECIFICATION Spec
CONSTANTS Vmax = 3 MaxLen = 14 Turns = 2 Emit = FALSE
INVARIANTS PassPositions Extremes OnceEach Away DirectionFree
CHECK_DEADLOCK FALSE
