SPECIFICATION Spec
INVARIANT Emit
INVARIANT Sane
VIEW View
CHECK_DEADLOCK FALSE
