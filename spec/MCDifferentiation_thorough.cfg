SPECIFICATION Spec
CONSTANTS Points = 7  Gaps = {1, 2}  Lim = 1  Many = 400
INVARIANTS Exact Reversed Shifted Kept RefinedExact
CHECK_DEADLOCK FALSE
