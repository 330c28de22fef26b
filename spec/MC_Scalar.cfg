INIT Init
NEXT Next
INVARIANT Clamp Wrap Map Orders
PROPERTY Periodic
CHECK_DEADLOCK FALSE
