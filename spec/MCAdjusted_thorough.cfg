SPECIFICATION Spec
CONSTANTS L = 6 Y = 2
INVARIANTS Balance Flat Parallel AllOrNothing Linear
PROPERTIES Inner
CHECK_DEADLOCK FALSE
