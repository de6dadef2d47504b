SPECIFICATION Spec
CONSTANT Fails <- FTFails
CHECK_DEADLOCK FALSE
