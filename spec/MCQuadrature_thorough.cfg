SPECIFICATION Spec
CONSTANTS Points = 5  Gaps = {1, 2}  Lim = 2  Many = 600
INVARIANTS Same Linear LinearS Mirror MirrorS Additive ExactTrap ExactSimp MeshExact MeshMirror MeshSquare
CHECK_DEADLOCK FALSE
