SPECIFICATION Spec
CONSTANT Design = "none"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
