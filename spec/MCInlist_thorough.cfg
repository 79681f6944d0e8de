SPECIFICATION Spec
CONSTANTS Depth = 2
 Kinds = {"1", "0"}
INVARIANTS NormIdempotent NothingEmptyLeft SameKeys LookupPreserved PrefixClosed
CHECK_DEADLOCK FALSE
