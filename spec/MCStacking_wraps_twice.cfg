SPECIFICATION Spec
CONSTANTS Design = "wraps_twice" Depth = 2 Emit = FALSE
INVARIANT Same
CHECK_DEADLOCK FALSE
VIEW Seen
