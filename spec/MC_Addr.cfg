INIT Init
NEXT Next
INVARIANT TypeOK Bijective ListOrder
PROPERTY Frame
CHECK_DEADLOCK FALSE
