SPECIFICATION Spec
CONSTANT Fails <- VRFails
CHECK_DEADLOCK FALSE
