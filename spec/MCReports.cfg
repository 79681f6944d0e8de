SPECIFICATION Spec
INVARIANTS StoppedMeansNothing OnlyAsked ShownOnlyOnRequest AllTold
PROPERTY AlwaysEnds
CHECK_DEADLOCK FALSE
