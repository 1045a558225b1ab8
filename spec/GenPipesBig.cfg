SPECIFICATION GSpec
CONSTANTS
  ValueLen = 2
  ChainLen = 3
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
