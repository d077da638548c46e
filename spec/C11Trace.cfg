SPECIFICATION TraceSpec
CONSTANTS
  Judge <- JStep
  Start <- S0
INVARIANT Conforms
ALIAS Brief
CHECK_DEADLOCK FALSE
