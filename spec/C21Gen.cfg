SPECIFICATION Spec
INVARIANTS Emitted Consistent
CHECK_DEADLOCK FALSE
