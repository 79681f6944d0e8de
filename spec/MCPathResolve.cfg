SPECIFICATION Spec
INVARIANTS SearchIsFirstExisting NeverMissing ErrorOnlyIfNone
CHECK_DEADLOCK FALSE
