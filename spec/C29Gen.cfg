SPECIFICATION Spec
INVARIANTS Emitted Potential Trace1
CHECK_DEADLOCK FALSE
