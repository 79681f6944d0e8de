SPECIFICATION Spec
CONSTANTS Seeds = 12
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
