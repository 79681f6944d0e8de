SPECIFICATION Spec
CONSTANTS Cuts = 3
 Many = 1500
INVARIANTS Aligned Whole Ordered Commute
CHECK_DEADLOCK FALSE
