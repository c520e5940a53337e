SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 4 Emit = TRUE MaxN = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
