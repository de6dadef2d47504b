SPECIFICATION Spec
CONSTANTS Points = 2 Gains = {0, 1, 3} Noises = {0, 2, 7} Colds = {1, 4} Hots = {5, 6} Scales = {1, 3}
INVARIANTS NoiseIsReceivers GainIsReceivers DeadIsUnusable UnitFree BestByGain BestByNoise SwapShows
CHECK_DEADLOCK FALSE
