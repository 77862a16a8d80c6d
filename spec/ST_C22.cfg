SPECIFICATION TraceSpec
INVARIANT C22
CHECK_DEADLOCK FALSE
