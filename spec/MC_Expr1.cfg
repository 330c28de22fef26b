CONSTANT Depth = 1
INIT Init1
NEXT Next1
INVARIANT InOrder Capture Export1
CHECK_DEADLOCK FALSE
