SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = FALSE
  Mutant = "deselect_source"
INVARIANTS TrainsAscending Unambiguous WholeIsSumOfTrains WrittenFaithful SelectSplits RangesRestrict UnionReadsLikeParts
PROPERTY Immutable
CHECK_DEADLOCK FALSE
