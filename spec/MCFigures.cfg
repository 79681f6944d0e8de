SPECIFICATION Spec
CONSTANTS
 Rows = 1
INVARIANTS Distinct OnlyWanted SeenTwice Agrees
CHECK_DEADLOCK FALSE
