SPECIFICATION Spec
CONSTANT Design = "centre_first"
INVARIANT Placed
CHECK_DEADLOCK FALSE
