SPECIFICATION Spec
CONSTANTS
  Procs = {"p1", "p2"}
  Files = {"f1", "f2"}
  MaxVer = 3
  MaxEnv = 3
  MaxCrash = 1
  MaxFail = 1
  Mutant = "none"
  Emit = FALSE
INVARIANTS MapSound NeverPartial OnlyRealVersions NeverFails
PROPERTY Terminates
CHECK_DEADLOCK FALSE
