SPECIFICATION Spec
CONSTANTS Top = 1  Many = 70
INVARIANTS Unspoiled Stops Complete Books Additive Painted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
