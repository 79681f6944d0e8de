SPECIFICATION Spec
CONSTANTS Looks = 4  Many = 300
INVARIANTS Bounded Accounted Honest Closed
PROPERTIES Settled Ends
CHECK_DEADLOCK FALSE
