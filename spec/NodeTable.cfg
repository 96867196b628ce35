SPECIFICATION Spec
INVARIANT Inv
INVARIANT Emit
PROPERTY Extends
CHECK_DEADLOCK FALSE
