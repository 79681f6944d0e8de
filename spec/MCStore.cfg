CONSTANTS
  Long = 3
SPECIFICATION Spec
INVARIANTS WriteIsFresh OnlySaved
PROPERTIES AppendKeeps NothingLost Separate
CHECK_DEADLOCK FALSE
