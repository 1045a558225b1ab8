SPECIFICATION Spec
VIEW View_
CHECK_DEADLOCK FALSE
