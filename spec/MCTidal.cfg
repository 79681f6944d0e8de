SPECIFICATION Spec
CONSTANTS Lmax = 1  Spins = {1, 2}  Files = {0, 6}  Many = 20
INVARIANTS Arrives OneTable OwnOrder NoTables Permuted
CHECK_DEADLOCK FALSE
