SPECIFICATION TraceSpec
INVARIANT C18
CHECK_DEADLOCK FALSE
