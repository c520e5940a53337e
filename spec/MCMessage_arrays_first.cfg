SPECIFICATION Spec
CONSTANT Design = "arrays_first"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
