SPECIFICATION Spec
CONSTANTS Design = "unpadded" Depth = 4 Emit = FALSE
INVARIANT Right
PROPERTY Finds
CHECK_DEADLOCK FALSE
VIEW Seen
