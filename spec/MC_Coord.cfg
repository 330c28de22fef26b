INIT Init
NEXT Next
INVARIANT Back CylBack Complement
CHECK_DEADLOCK FALSE
