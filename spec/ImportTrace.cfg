SPECIFICATION Spec
CONSTANT Fails <- ITFails
CHECK_DEADLOCK FALSE
