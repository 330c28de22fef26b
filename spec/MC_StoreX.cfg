CONSTANTS Depth = 12
          Focus = 0
          Second = {13, 5}
INIT Init
NEXT ExNext
INVARIANT TypeOK FrameOK
CHECK_DEADLOCK FALSE
