SPECIFICATION Spec
CONSTANTS N = 4 Top = 3 DataLen = 6 Mutant = "no_gap_check" Emit = FALSE
INVARIANTS LocalChecksSuffice StrictIsLenient LenientMeansSound Printed
CHECK_DEADLOCK FALSE
