SPECIFICATION Spec
CONSTANTS Listings = 40  Many = 900
INVARIANTS Faithful Single AllOrNone Back Closed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
