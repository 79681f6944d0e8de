CONSTANTS
  Big = TRUE
SPECIFICATION Spec
INVARIANTS OnlyAdmittedCoupled NeverCoupledTwice AllWhenDone AdmittedImpliesSigns CanFinish
CHECK_DEADLOCK FALSE
