SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 1 Emit = TRUE
INVARIANT Same
INVARIANT Out
CHECK_DEADLOCK FALSE
