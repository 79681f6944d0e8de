CONSTANTS
  Labels = {1, 2, 3}
  MaxA = 3
  MaxB = 3
SPECIFICATION Spec
VIEW View
INVARIANTS EachOnce CountRight AllThere
CHECK_DEADLOCK FALSE
