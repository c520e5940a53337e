SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 2 Emit = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
VIEW Seen
