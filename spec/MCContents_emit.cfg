SPECIFICATION Spec
CONSTANTS Design = "none" Size = 4 Emit = TRUE
INVARIANT Out
CHECK_DEADLOCK FALSE
