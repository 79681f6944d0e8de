SPECIFICATION Spec
CONSTANTS Coef = 1
 Deg = 2
 Many = 1500
INVARIANTS Momentum Law LawHere Parity Mirror
CHECK_DEADLOCK FALSE
