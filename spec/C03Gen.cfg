SPECIFICATION Spec
INVARIANTS Emitted SameValue AllBound
CHECK_DEADLOCK FALSE
