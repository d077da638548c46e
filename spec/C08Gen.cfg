SPECIFICATION Spec
INVARIANTS Emitted LineDeg
CHECK_DEADLOCK FALSE
