SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = FALSE
  Mutant = "none"
INVARIANTS TrainsAscending Unambiguous WholeIsSumOfTrains WrittenFaithful SelectSplits RangesRestrict UnionReadsLikeParts
PROPERTY Immutable
CHECK_DEADLOCK FALSE
