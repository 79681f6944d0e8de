SPECIFICATION Spec
CONSTANTS Points = 5  Gaps = {1, 2}  Lim = 1  Many = 40
INVARIANTS Exact Reversed Shifted Kept RefinedExact
CHECK_DEADLOCK FALSE
