SPECIFICATION Spec
INVARIANTS Emitted Quotient Partial
CHECK_DEADLOCK FALSE
