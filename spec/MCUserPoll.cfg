SPECIFICATION Spec
CONSTANTS N = 3 Depth = 5
INVARIANTS OnlyOfferedReturned NothingBeforeConfirmation DoneMeansChosen
CHECK_DEADLOCK FALSE
