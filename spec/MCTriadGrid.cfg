CONSTANTS
  Lo = 0
  Hi = 3
  PLo = 0
  PHi = 1
SPECIFICATION Spec
INVARIANTS CountOk
CHECK_DEADLOCK FALSE
