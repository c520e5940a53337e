SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
  Mutant = "none"
CHECK_DEADLOCK FALSE
