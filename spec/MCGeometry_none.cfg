SPECIFICATION Spec
CONSTANT Design = "none"
INVARIANT Placed
CHECK_DEADLOCK FALSE
