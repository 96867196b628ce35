CONSTANTS
  MaxMixins = 2
  MaxArchetypes = 2
SPECIFICATION Spec
INVARIANTS Sound Show
CHECK_DEADLOCK FALSE
