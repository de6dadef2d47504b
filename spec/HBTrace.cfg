SPECIFICATION Spec
CONSTANT Fails <- HBFails
CHECK_DEADLOCK FALSE
