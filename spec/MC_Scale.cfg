INIT Init
NEXT Next
INVARIANT Homogeneous
CHECK_DEADLOCK FALSE
