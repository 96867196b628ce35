SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
