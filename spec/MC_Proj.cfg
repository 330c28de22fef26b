INIT Init
NEXT Next
INVARIANT CornersMap PlanesHold FromRows
CHECK_DEADLOCK FALSE
