CONSTANTS
  Labels = {1, 2, 3, 4}
  MaxA = 4
  MaxB = 3
SPECIFICATION Spec
VIEW View
INVARIANTS EachOnce CountRight AllThere
CHECK_DEADLOCK FALSE
