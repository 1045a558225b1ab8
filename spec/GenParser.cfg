SPECIFICATION GSpec
CONSTANT MaxOpen = 2
VIEW View_
INVARIANT Inv
CHECK_DEADLOCK FALSE
