SPECIFICATION Spec
CONSTANTS Rows = 2
 Wide = 4
 Many = 1500
INVARIANTS Back Same Prefix
CHECK_DEADLOCK FALSE
