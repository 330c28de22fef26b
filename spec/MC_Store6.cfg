CONSTANTS Depth = 12
          Focus = 6
          Second = {}
INIT Init
NEXT Next
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
