SPECIFICATION Spec
CONSTANTS Many = 6000
INVARIANTS SameSettings Subsets Placed Undisturbed Needed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
