SPECIFICATION GSpec
CONSTANTS
  ValueLen = 2
  Atoms <- AtomsFew
  Quants = {"", "*", "+?"}
  Flags = {"", "i"}
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS Emit
CHECK_DEADLOCK FALSE
