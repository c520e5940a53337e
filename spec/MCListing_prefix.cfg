SPECIFICATION Spec
CONSTANTS Design = "prefix" MaxT = 3 MaxSeg = 3
INVARIANT True
CHECK_DEADLOCK FALSE
