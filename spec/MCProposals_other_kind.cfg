SPECIFICATION Spec
CONSTANTS Design = "other_kind" Depth = 4 Emit = FALSE
INVARIANT Right
PROPERTY Finds
CHECK_DEADLOCK FALSE
VIEW Seen
