INIT Init
NEXT Next
INVARIANT Lagrange Products Ends
CHECK_DEADLOCK FALSE
