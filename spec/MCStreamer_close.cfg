SPECIFICATION Spec
CONSTANTS
  N = 3
  Max = 1
  NClients = 2
  Stops = 2
  Closes = 1
  Design = "none"
INVARIANT Safe
PROPERTY StopEnds
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE
