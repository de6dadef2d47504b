SPECIFICATION Spec
CONSTANT Fails <- QTFails
CHECK_DEADLOCK FALSE
