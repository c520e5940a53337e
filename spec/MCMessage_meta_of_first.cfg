SPECIFICATION Spec
CONSTANT Design = "meta_of_first"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
