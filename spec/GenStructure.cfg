SPECIFICATION StSpec
CONSTANTS
  MaxTokens = 5
  MaxExtra = 0
VIEW StView
INVARIANTS Balanced Closable Mended
PROPERTY Stays
CHECK_DEADLOCK FALSE
