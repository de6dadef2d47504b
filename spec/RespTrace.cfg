SPECIFICATION Spec
CONSTANT Fails <- RespFails
CHECK_DEADLOCK FALSE
