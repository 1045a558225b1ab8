SPECIFICATION GSpec
CONSTANTS
  ValueLen = 4
  LiteralLen = 3
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
