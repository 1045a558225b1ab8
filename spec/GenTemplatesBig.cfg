SPECIFICATION GSpec
CONSTANTS
  Every = 1
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
