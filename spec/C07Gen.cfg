SPECIFICATION Spec
INVARIANTS Emitted Counts LeadBasis
CHECK_DEADLOCK FALSE
