SPECIFICATION Spec
CONSTANTS
  Procs = {"p1", "p2"}
  Files = {"f1", "f2"}
  MaxVer = 2
  MaxEnv = 2
  MaxCrash = 1
  MaxFail = 1
  Mutant = "fatal_failure"
  Emit = FALSE
INVARIANTS MapSound NeverPartial OnlyRealVersions NeverFails
CHECK_DEADLOCK FALSE
