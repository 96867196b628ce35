CONSTANTS
  MaxMixins = 1
  MaxArchetypes = 3
SPECIFICATION Spec
INVARIANTS Sound Show
CHECK_DEADLOCK FALSE
