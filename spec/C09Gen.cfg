SPECIFICATION Spec
INVARIANTS Emitted Invariance
CHECK_DEADLOCK FALSE
