SPECIFICATION TraceSpec
INVARIANT C19
CHECK_DEADLOCK FALSE
