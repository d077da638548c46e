SPECIFICATION Spec
INVARIANT Emitted
CHECK_DEADLOCK FALSE
