SPECIFICATION Spec
INVARIANTS Emitted WeightFree
CHECK_DEADLOCK FALSE
