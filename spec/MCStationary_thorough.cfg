SPECIFICATION Spec
CONSTANTS NMax = 6
 GMax = 2
 Rots = {0,1,3}
 UnitsC = {"UHZ", "CYC_PER_DAY", "RAD_PER_SEC"}
INVARIANT ClosedFormIsFixedPoint
PROPERTIES FrameFree UnitFree SwapSwapsAmplitudes
CHECK_DEADLOCK FALSE
