SPECIFICATION GSpec
CONSTANTS
  ValueLen = 3
  LiteralLen = 2
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
