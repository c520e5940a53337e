SPECIFICATION Spec
CONSTANTS
  N = 3
  Max = 2
  NClients = 2
  Stops = 1
  Closes = 0
  Design = "none"
INVARIANT Safe
PROPERTY StopEnds
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE
