INIT Init
NEXT Next
INVARIANT Laws2 Laws3
CHECK_DEADLOCK FALSE
