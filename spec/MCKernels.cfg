SPECIFICATION Spec
CONSTANTS Seeds = 4
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
