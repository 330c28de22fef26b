INIT Init
NEXT Next
INVARIANT Hamilton Laws
CHECK_DEADLOCK FALSE
