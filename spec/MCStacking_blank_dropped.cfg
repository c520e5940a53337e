SPECIFICATION Spec
CONSTANTS Design = "blank_dropped" Depth = 2 Emit = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
VIEW Seen
