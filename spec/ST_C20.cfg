SPECIFICATION TraceSpec
INVARIANT C20
CHECK_DEADLOCK FALSE
