SPECIFICATION Spec
INVARIANTS Emitted Laws
CHECK_DEADLOCK FALSE
