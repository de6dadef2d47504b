SPECIFICATION Spec
CONSTANT Fails <- CircuitFails
CHECK_DEADLOCK FALSE
