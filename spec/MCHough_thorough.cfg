SPECIFICATION Spec
CONSTANTS Coef = 1
 Deg = 3
 Many = 6000
INVARIANTS Momentum Law LawHere Parity Mirror
CHECK_DEADLOCK FALSE
