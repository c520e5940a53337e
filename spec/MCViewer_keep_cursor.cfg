SPECIFICATION Spec
CONSTANTS Design = "keep_cursor" Depth = 6 Emit = FALSE MaxN = 4
INVARIANT Sound
PROPERTY Follows
CHECK_DEADLOCK FALSE
VIEW Seen
