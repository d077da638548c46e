SPECIFICATION Spec
INVARIANTS Emitted JetsAgree Einstein
CHECK_DEADLOCK FALSE
