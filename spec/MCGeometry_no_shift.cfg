SPECIFICATION Spec
CONSTANT Design = "no_shift"
INVARIANT Placed
CHECK_DEADLOCK FALSE
