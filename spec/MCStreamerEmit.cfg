SPECIFICATION Spec
CONSTANTS
  Depth = 8
  Max = 2
  NClients = 2
CHECK_DEADLOCK FALSE
