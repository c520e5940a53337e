SPECIFICATION Spec
CONSTANTS Design = "one_segment" MaxT = 3 MaxSeg = 3
INVARIANT True
CHECK_DEADLOCK FALSE
