CONSTANTS Depth = 0
          Faults = FALSE
INIT PickInit
NEXT PickNext
INVARIANT PickOK PickExport
CHECK_DEADLOCK FALSE
