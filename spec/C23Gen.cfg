SPECIFICATION Spec
INVARIANTS Emitted Laws GridLaws
CHECK_DEADLOCK FALSE
