SPECIFICATION Spec
CONSTANTS Looks = 5  Many = 3000
INVARIANTS Bounded Accounted Honest Closed
PROPERTIES Settled Ends
CHECK_DEADLOCK FALSE
