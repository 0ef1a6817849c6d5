SPECIFICATION Spec
CONSTANT Depth = 22
CHECK_DEADLOCK FALSE
