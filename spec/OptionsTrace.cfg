SPECIFICATION Spec
CONSTANT Fails <- OPFails
CHECK_DEADLOCK FALSE
