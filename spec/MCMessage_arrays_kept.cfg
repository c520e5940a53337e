SPECIFICATION Spec
CONSTANT Design = "arrays_kept"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
