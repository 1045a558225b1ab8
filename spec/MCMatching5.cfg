SPECIFICATION Spec
CONSTANTS
  MaxRules = 3
  MaxSibs = 5
  RuleTags = {"a", "b", "*"}
  NodeTags = {"a", "b", "#"}
INVARIANTS TypeOK SameGroups Sound InOrder Multiplicity Disjoint FirstFit Resume NothingLeft OptionalNeutral OptionalTaken GreedyAll GreedyAlone Single
CHECK_DEADLOCK FALSE
