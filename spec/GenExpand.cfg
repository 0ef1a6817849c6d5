SPECIFICATION Spec
CONSTANT Depth = 20
CHECK_DEADLOCK FALSE
