SPECIFICATION Spec
CONSTANT Fails <- CTFails
CHECK_DEADLOCK FALSE
