SPECIFICATION Spec
INVARIANTS Emitted Laws Crosses
CHECK_DEADLOCK FALSE
