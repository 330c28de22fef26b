CONSTANTS Depth = 12
          Focus = 7
          Second = {}
          Chains = 24
          Rounds = 1
INIT CInit
NEXT CNext
INVARIANT TypeOK FrameOK Export
CHECK_DEADLOCK FALSE
