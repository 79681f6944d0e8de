SPECIFICATION Spec
CONSTANTS NMax = 5
 GMax = 2
 Rots = {1}
 UnitsC = {"UHZ", "RAD_PER_SEC"}
INVARIANT ClosedFormIsFixedPoint
PROPERTIES FrameFree UnitFree SwapSwapsAmplitudes
CHECK_DEADLOCK FALSE
