SPECIFICATION Spec
INVARIANTS Fractions Operations Absorbing Modular Field Helpers
CHECK_DEADLOCK FALSE
