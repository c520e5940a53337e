SPECIFICATION Spec
CONSTANTS Design = "none" Size = 4 Emit = FALSE
INVARIANT Whole Outlined
PROPERTY Ends
CHECK_DEADLOCK FALSE
