CONSTANTS Depth = 12
          Focus = 0
          Second = {1, 10, 13, 5, 12}
INIT Init
NEXT ExNext
INVARIANT TypeOK FrameOK
CHECK_DEADLOCK FALSE
