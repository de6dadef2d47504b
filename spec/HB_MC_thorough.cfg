SPECIFICATION Spec
CONSTANTS
  Signals = {1, 2}
  Biases = {1, 2}
  Levels <- DeepLevels
  MaxIt = 3
  Tols = {0, 128, 512}
  Calls = 3
  D = 2
INVARIANTS Truthful Resumable InCall StopsEarly
PROPERTIES DampingLaw Returns
CHECK_DEADLOCK FALSE
