SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
  Mutant = "none"
CHECK_DEADLOCK FALSE
