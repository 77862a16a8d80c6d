SPECIFICATION TraceSpec
INVARIANT C17
CHECK_DEADLOCK FALSE
