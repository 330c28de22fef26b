INIT Init
NEXT Next
INVARIANT Trichotomy Transitive Prefix
CHECK_DEADLOCK FALSE
