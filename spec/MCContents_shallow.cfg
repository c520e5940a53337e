SPECIFICATION Spec
CONSTANTS Design = "shallow" Size = 4 Emit = FALSE
INVARIANT Whole Outlined

CHECK_DEADLOCK FALSE
