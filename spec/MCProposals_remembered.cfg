SPECIFICATION Spec
CONSTANTS Design = "remembered" Depth = 5 Emit = FALSE
INVARIANT Right
PROPERTY Finds
CHECK_DEADLOCK FALSE
VIEW Seen
