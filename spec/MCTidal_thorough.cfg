SPECIFICATION Spec
CONSTANTS Lmax = 2  Spins = {1}  Files = {0, 6}  Many = 150
INVARIANTS Arrives OneTable OwnOrder NoTables Permuted
CHECK_DEADLOCK FALSE
