SPECIFICATION Spec
CONSTANTS Design = "every_series" MaxT = 3 MaxSeg = 3
INVARIANT True
CHECK_DEADLOCK FALSE
