SPECIFICATION Spec
CONSTANTS Rows = 3
 Wide = 4
 Many = 6000
INVARIANTS Back Same Prefix
CHECK_DEADLOCK FALSE
