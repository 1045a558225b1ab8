SPECIFICATION Spec
CONSTANTS
  MaxNodes = 5
  NodeTags = {"a", "b", "#"}
  MaxChild = 2
  MaxNested = 1
  TopTags = {"a"}
  LeafTags = {"a", "b"}
  TopFlags = {"m", "o", "g"}
  LeafFlags = {"m", "o"}
INVARIANTS TypeOK SameGroups Scope SatMeaning OptionalBelow Coverage Order SearchCount
CHECK_DEADLOCK FALSE
