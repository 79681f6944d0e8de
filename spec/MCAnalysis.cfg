SPECIFICATION Spec
CONSTANTS
 Rows = 2
 Orders = {5, 6, 7}
 Many = 120
INVARIANTS Apart Local LowestWins
CHECK_DEADLOCK FALSE
