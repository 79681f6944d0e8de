SPECIFICATION Spec
CONSTANTS N = 3 Depth = 7
INVARIANTS OnlyOfferedReturned NothingBeforeConfirmation DoneMeansChosen
CHECK_DEADLOCK FALSE
