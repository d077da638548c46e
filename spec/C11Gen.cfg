SPECIFICATION Spec
INVARIANTS Emitted Reassemble RootForm
CHECK_DEADLOCK FALSE
