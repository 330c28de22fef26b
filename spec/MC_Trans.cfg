INIT Init
NEXT Next
INVARIANT Affine Compose Undo
CHECK_DEADLOCK FALSE
