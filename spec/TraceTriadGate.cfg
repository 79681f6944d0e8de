SPECIFICATION TSpec
INVARIANTS AdmittedOnlyWhenAllowed
CHECK_DEADLOCK FALSE
