SPECIFICATION TraceSpec
INVARIANT C07
CHECK_DEADLOCK FALSE
