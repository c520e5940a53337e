SPECIFICATION Spec
CONSTANTS M = 2 Fpt = 2 MinMod = 1 Mutant = "none" Emit = FALSE
CONSTANT Ids <- IdsA
INVARIANTS Labelled AllRead CXIPlaced Printed
CHECK_DEADLOCK FALSE
