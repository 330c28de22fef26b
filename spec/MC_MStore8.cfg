CONSTANTS Depth = 10
          Focus = 8
          Second = {}
INIT Init
NEXT Next
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
