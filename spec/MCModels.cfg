SPECIFICATION Spec
CONSTANTS Listings = 12  Many = 60
INVARIANTS Faithful Single AllOrNone Back Closed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
