CONSTANTS Depth = 14
          Faults = TRUE
INIT Init
NEXT Next
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
