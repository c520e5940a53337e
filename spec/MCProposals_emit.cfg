SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 4 Emit = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
VIEW Seen
