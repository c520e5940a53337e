SPECIFICATION Spec
CONSTANTS N = 3 Top = 2 DataLen = 3 Mutant = "none" Emit = TRUE
INVARIANTS LocalChecksSuffice StrictIsLenient LenientMeansSound Printed
CHECK_DEADLOCK FALSE
