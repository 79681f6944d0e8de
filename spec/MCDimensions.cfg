SPECIFICATION Spec
CONSTANTS Many = 200
INVARIANTS Commutes Sound
PROPERTIES Ends
CHECK_DEADLOCK FALSE
