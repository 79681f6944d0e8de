SPECIFICATION Spec
CONSTANT L = 11
INVARIANTS Partition BordersAreCrossings
CHECK_DEADLOCK FALSE
