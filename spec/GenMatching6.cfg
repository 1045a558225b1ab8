SPECIFICATION GenSpec
CONSTANTS
  MaxRules = 3
  MaxSibs = 6
  RuleTags = {"a", "*"}
  NodeTags = {"a", "b", "#"}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
