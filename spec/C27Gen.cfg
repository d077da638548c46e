SPECIFICATION Spec
INVARIANTS Emitted BindsOnce Monotone
CHECK_DEADLOCK FALSE
