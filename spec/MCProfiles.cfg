SPECIFICATION Spec
CONSTANTS Wide = FALSE
 Many = 1500
INVARIANTS Laws Numeric Waving Continuity Lines
PROPERTY Ends
CHECK_DEADLOCK FALSE
