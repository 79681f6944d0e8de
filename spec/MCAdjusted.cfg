SPECIFICATION Spec
CONSTANTS L = 5
Y = 1
INVARIANTS Balance Flat Parallel AllOrNothing Linear
PROPERTIES Inner
CHECK_DEADLOCK FALSE
