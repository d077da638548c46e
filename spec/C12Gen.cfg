SPECIFICATION Spec
INVARIANTS Emitted HermitianMetric EtaFree FSCase
CHECK_DEADLOCK FALSE
