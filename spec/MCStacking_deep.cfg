SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 3 Emit = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
VIEW Seen
