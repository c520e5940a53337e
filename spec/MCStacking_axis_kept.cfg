SPECIFICATION Spec
CONSTANTS Design = "axis_kept" Depth = 2 Emit = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
VIEW Seen
