SPECIFICATION Spec
CONSTANTS Each = 27  Many = 3000
INVARIANTS Hydro LaneEmden Poly Coefs Homology Neutral
CHECK_DEADLOCK FALSE
