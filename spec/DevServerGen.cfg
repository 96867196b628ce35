SPECIFICATION Spec
INVARIANT Current
INVARIANT Emit
CONSTANT Depth = 24
CHECK_DEADLOCK FALSE
