SPECIFICATION TraceSpec
INVARIANT C10
CHECK_DEADLOCK FALSE
