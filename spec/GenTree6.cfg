SPECIFICATION GenSpec
CONSTANTS
  MaxNodes = 6
  NodeTags = {"a", "b", "#"}
  MaxChild = 2
  MaxNested = 1
  TopTags = {"a"}
  LeafTags = {"a", "b"}
  TopFlags = {"m", "g", "o"}
  LeafFlags = {"m", "o"}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
