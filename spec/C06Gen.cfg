SPECIFICATION Spec
INVARIANTS Emitted Univariate
CHECK_DEADLOCK FALSE
