CONSTANTS
  Big = FALSE
SPECIFICATION Spec
INVARIANTS OnlyAdmittedCoupled NeverCoupledTwice AllWhenDone AdmittedImpliesSigns CanFinish
CHECK_DEADLOCK FALSE
