INIT Init
NEXT Next
INVARIANT Group EulerLaw AxisLaw Complete
CHECK_DEADLOCK FALSE
