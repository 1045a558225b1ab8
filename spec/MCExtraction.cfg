SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Limits = {0, 1, 3, 5}
  MaxNodes = 4
  NodeTags = {"a", "b"}
  Templates = {"pair", "child", "nested", "greedy"}
INVARIANTS Outcome_ Early Whole
PROPERTIES Shared Ends
CHECK_DEADLOCK FALSE
