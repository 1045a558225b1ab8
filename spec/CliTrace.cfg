SPECIFICATION CSpec
VIEW CView_
CHECK_DEADLOCK FALSE
