SPECIFICATION Spec
CONSTANTS Design = "groups" Size = 4 Emit = FALSE
INVARIANT Whole Outlined

CHECK_DEADLOCK FALSE
