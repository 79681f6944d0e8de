SPECIFICATION Spec
CONSTANTS
 Rows = 2
INVARIANTS Distinct OnlyWanted SeenTwice Agrees
CHECK_DEADLOCK FALSE
