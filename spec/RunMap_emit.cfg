SPECIFICATION Spec
CONSTANTS
  Procs = {"p1", "p2"}
  Files = {"f1", "f2"}
  MaxVer = 4
  MaxEnv = 3
  MaxCrash = 1
  MaxFail = 1
  Mutant = "none"
  Emit = TRUE
CHECK_DEADLOCK FALSE
