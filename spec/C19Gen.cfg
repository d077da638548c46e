SPECIFICATION Spec
INVARIANTS Emitted FlatForm Positive IdentityInit Derivative
CHECK_DEADLOCK FALSE
