SPECIFICATION GSpec
CONSTANT MaxOpen = 4
VIEW View_
INVARIANT Inv
CHECK_DEADLOCK FALSE
