SPECIFICATION Spec
CONSTANTS Design = "none" Depth = 5 Emit = FALSE
INVARIANT Right
PROPERTY Finds
CHECK_DEADLOCK FALSE
VIEW Seen
