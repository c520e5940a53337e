SPECIFICATION Spec
CONSTANTS Design = "contained" Depth = 4 Emit = FALSE
INVARIANT Right
PROPERTY Finds
CHECK_DEADLOCK FALSE
VIEW Seen
