SPECIFICATION Spec
CONSTANTS Many = 1200
INVARIANTS Commutes Sound
PROPERTIES Ends
CHECK_DEADLOCK FALSE
