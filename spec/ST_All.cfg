SPECIFICATION TraceSpec
INVARIANT All
CHECK_DEADLOCK FALSE
