INIT Init
NEXT Next
INVARIANT Wanted Unique
CHECK_DEADLOCK FALSE
