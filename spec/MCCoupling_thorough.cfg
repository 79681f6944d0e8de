SPECIFICATION Spec
CONSTANTS Seeds = 16  Many = 3360
INVARIANTS Real Symmetric Scaled Rigid Homologous
CHECK_DEADLOCK FALSE
