SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Emit
CONSTANTS
  Threads = 4
  Programs = 12
  Len0 = 120
