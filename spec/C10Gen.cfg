SPECIFICATION Spec
INVARIANTS Emitted Tangent Cofactor EulerLaw
CHECK_DEADLOCK FALSE
