SPECIFICATION Spec
INVARIANTS Emitted Injective
CHECK_DEADLOCK FALSE
