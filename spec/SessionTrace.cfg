SPECIFICATION Spec
CONSTANT Fails <- STFails
CHECK_DEADLOCK FALSE
