SPECIFICATION GSpec
CONSTANTS
  Nodes = 4
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
