CONSTANTS Depth = 12
          Focus = 7
          Second = {}
INIT Init
NEXT Next
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
