CONSTANTS Depth = 12
          Focus = 6
          Second = {}
          Chains = 24
          Rounds = 1
INIT CInit
NEXT CNext
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
