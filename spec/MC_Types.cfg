INIT Init
NEXT Next
INVARIANT Join3 Shape Tagged
CHECK_DEADLOCK FALSE
