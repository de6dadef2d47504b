SPECIFICATION Spec
CONSTANT Fails <- RTFails
CHECK_DEADLOCK FALSE
