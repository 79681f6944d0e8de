SPECIFICATION Spec
CONSTANT L = 9
INVARIANTS Partition BordersAreCrossings
CHECK_DEADLOCK FALSE
