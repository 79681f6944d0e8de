SPECIFICATION Spec
CONSTANTS Each = 4  Many = 250
INVARIANTS Hydro LaneEmden Poly Coefs Homology Neutral
CHECK_DEADLOCK FALSE
