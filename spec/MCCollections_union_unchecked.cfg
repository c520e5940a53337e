SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = FALSE
  Mutant = "union_unchecked"
INVARIANTS TrainsAscending Unambiguous WholeIsSumOfTrains WrittenFaithful SelectSplits RangesRestrict UnionReadsLikeParts
PROPERTY Immutable
CHECK_DEADLOCK FALSE
