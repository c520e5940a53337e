SPECIFICATION Spec
CONSTANTS Design = "none" MaxT = 3 MaxSeg = 3
INVARIANT True
CHECK_DEADLOCK FALSE
