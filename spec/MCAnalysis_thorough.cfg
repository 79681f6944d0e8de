SPECIFICATION Spec
CONSTANTS
 Rows = 3
 Orders = {5, 6, 7}
 Many = 1000
INVARIANTS Apart Local LowestWins
CHECK_DEADLOCK FALSE
