SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
CONSTANT Unwritten = "minus1"
