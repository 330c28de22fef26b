INIT Init
NEXT Next
INVARIANT Total Dual Prods Sym
CHECK_DEADLOCK FALSE
