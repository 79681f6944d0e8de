SPECIFICATION Spec
CONSTANTS Seeds = 6  Many = 2000
INVARIANTS Real Symmetric Scaled Rigid Homologous
CHECK_DEADLOCK FALSE
