SPECIFICATION Spec
CONSTANTS M = 2 Fpt = 2 MinMod = 1 Mutant = "restart" Emit = FALSE
CONSTANT Ids <- IdsB
INVARIANTS Labelled AllRead CXIPlaced Printed
CHECK_DEADLOCK FALSE
