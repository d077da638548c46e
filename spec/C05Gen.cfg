SPECIFICATION Spec
INVARIANTS Emitted Commutes Leibniz Ascending Covered
CHECK_DEADLOCK FALSE
