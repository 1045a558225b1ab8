SPECIFICATION Spec
CONSTANTS
  MaxRules = 3
  MaxSibs = 4
  RuleTags = {"a", "*"}
  NodeTags = {"a", "b", "#"}
INVARIANTS TypeOK SameGroups Sound InOrder Multiplicity Disjoint FirstFit Resume NothingLeft OptionalNeutral OptionalTaken GreedyAll GreedyAlone Single
CHECK_DEADLOCK FALSE
