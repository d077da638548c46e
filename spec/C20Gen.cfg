SPECIFICATION Spec
INVARIANTS Emitted Counts PhaseUnit MeanKept ExpLaws
CHECK_DEADLOCK FALSE
