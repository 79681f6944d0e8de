SPECIFICATION Spec
INVARIANTS AtMostOneSolver StoppedMeansNothingStarted OnlyGridIsSaved ContradictionNeverRuns NothingChosenNeverRuns OneSource
PROPERTY AlwaysEnds
CHECK_DEADLOCK FALSE
