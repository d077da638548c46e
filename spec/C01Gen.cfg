SPECIFICATION Spec
INVARIANTS Emitted Kept ChainsAgree
CHECK_DEADLOCK FALSE
