SPECIFICATION Spec
CONSTANTS Many = 600
INVARIANTS SameSettings Subsets Placed Undisturbed Needed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
