SPECIFICATION GSpec
CONSTANTS
  Nodes = 3
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
