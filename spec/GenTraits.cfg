SPECIFICATION GSpec
CONSTANTS
  ListLen = 3
  MaxA = 3
  MaxB = 4
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
