SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 2 Emit = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
