SPECIFICATION Spec
CONSTANTS Design = "none" Size = 5 Emit = FALSE
INVARIANT Whole Outlined
PROPERTY Ends
CHECK_DEADLOCK FALSE
