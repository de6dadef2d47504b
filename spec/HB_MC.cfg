SPECIFICATION Spec
CONSTANTS
  Signals = {1, 2}
  Biases = {1, 2}
  Levels <- QuickLevels
  MaxIt = 2
  Tols = {0, 8}
  Calls = 2
  D = 2
INVARIANTS Truthful Resumable InCall StopsEarly
PROPERTIES DampingLaw Returns
CHECK_DEADLOCK FALSE
