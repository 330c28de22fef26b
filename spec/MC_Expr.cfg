CONSTANT Depth = 4
INIT Init
NEXT Next
INVARIANT InOrder Capture Export
CHECK_DEADLOCK FALSE
