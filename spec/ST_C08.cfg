SPECIFICATION TraceSpec
INVARIANT C08
CHECK_DEADLOCK FALSE
