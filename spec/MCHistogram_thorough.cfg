SPECIFICATION Spec
CONSTANTS Points = 4
 Many = 8000
INVARIANTS Conserved Confluent Unit Refines Moves Missed LeaveOneOut
CHECK_DEADLOCK FALSE
