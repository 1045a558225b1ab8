SPECIFICATION MRSpec
CONSTANTS
  ValueLen = 2
  Atoms <- AtomsFew
  Quants = {"", "*", "+?"}
  Flags = {""}
  Pages_ <- ThePages
  Templates_ <- TheTemplates
INVARIANTS SameMatch WholeText Identity NoMatchSame
CHECK_DEADLOCK FALSE
