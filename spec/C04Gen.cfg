SPECIFICATION Spec
INVARIANTS Emitted OneToOne HomLaw Rescaled
CHECK_DEADLOCK FALSE
