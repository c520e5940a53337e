SPECIFICATION Spec
CONSTANTS N = 4 Top = 3 DataLen = 6 Mutant = "no_overlap_check" Emit = FALSE
INVARIANTS LocalChecksSuffice StrictIsLenient LenientMeansSound Printed
CHECK_DEADLOCK FALSE
