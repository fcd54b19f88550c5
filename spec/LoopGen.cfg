SPECIFICATION Spec
CONSTANT Part = "cycle"
INVARIANT Out
CHECK_DEADLOCK FALSE
