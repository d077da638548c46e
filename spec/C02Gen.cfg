SPECIFICATION Spec
INVARIANTS Emitted ClosedForm Covariant HermitianForm
CHECK_DEADLOCK FALSE
