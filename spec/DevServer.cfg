SPECIFICATION Spec
INVARIANT Current
CONSTANT Depth = 5
CHECK_DEADLOCK FALSE
