SPECIFICATION Spec
CONSTANTS M = 2 Fpt = 2 MinMod = 1 Mutant = "arange_labels" Emit = FALSE
CONSTANT Ids <- IdsB
INVARIANTS Labelled AllRead CXIPlaced Printed
CHECK_DEADLOCK FALSE
