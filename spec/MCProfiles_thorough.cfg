SPECIFICATION Spec
CONSTANTS Wide = TRUE
 Many = 8000
INVARIANTS Laws Numeric Waving Continuity Lines
PROPERTY Ends
CHECK_DEADLOCK FALSE
