SPECIFICATION Spec
CONSTANTS
  N = 5
  Max = 2
  NClients = 3
  Stops = 2
  Closes = 0
  Design = "none"
INVARIANT Safe
PROPERTY StopEnds
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE
