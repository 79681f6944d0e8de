SPECIFICATION Spec
CONSTANTS Top = 2  Many = 1200
INVARIANTS Unspoiled Stops Complete Books Additive Painted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
