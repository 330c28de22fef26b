CONSTANTS Depth = 10
          Focus = 0
          Second = {20}
INIT Init
NEXT ExNext
INVARIANT TypeOK FrameOK
CHECK_DEADLOCK FALSE
