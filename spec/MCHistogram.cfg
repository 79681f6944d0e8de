SPECIFICATION Spec
CONSTANTS Points = 2
 Many = 1500
INVARIANTS Conserved Confluent Unit Refines Moves Missed LeaveOneOut
PROPERTY Ends
CHECK_DEADLOCK FALSE
