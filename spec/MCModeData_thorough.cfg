SPECIFICATION Spec
CONSTANTS Cuts = 5
 Many = 8000
INVARIANTS Aligned Whole Ordered Commute
CHECK_DEADLOCK FALSE
