SPECIFICATION Spec
CONSTANTS Vmax = 5 MaxLen = 22 Turns = 4 Emit = FALSE
INVARIANTS PassPositions Extremes OnceEach Away DirectionFree
CHECK_DEADLOCK FALSE
