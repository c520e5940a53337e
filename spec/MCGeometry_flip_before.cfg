SPECIFICATION Spec
CONSTANT Design = "flip_before"
INVARIANT Placed
CHECK_DEADLOCK FALSE
