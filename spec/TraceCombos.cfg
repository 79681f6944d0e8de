SPECIFICATION TSpec
INVARIANT EachOnce
CHECK_DEADLOCK FALSE
