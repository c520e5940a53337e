SPECIFICATION Spec
CONSTANTS Design = "unsorted" Size = 4 Emit = FALSE
INVARIANT Whole Outlined

CHECK_DEADLOCK FALSE
