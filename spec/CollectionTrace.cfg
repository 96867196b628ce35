SPECIFICATION TSpec
POSTCONDITION Accepted
CONSTANT Depth = 0
CHECK_DEADLOCK FALSE
