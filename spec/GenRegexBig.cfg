SPECIFICATION GSpec
CONSTANTS
  ValueLen = 3
  Atoms <- AtomsMany
  Quants = {"", "*", "+", "?", "*?", "{2}"}
  Flags = {"", "i"}
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
