SPECIFICATION Spec
CONSTANTS Points = 4  Gaps = {1, 2}  Lim = 1  Many = 60
INVARIANTS Same Linear LinearS Mirror MirrorS Additive ExactTrap ExactSimp MeshExact MeshMirror MeshSquare
CHECK_DEADLOCK FALSE
