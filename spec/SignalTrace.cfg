SPECIFICATION Spec
CONSTANT Fails <- SignalFails
CHECK_DEADLOCK FALSE
