SPECIFICATION SSpec
CONSTANTS
  Depth = 3
  MaxRules = 6
INVARIANTS Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
