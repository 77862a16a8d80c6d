SPECIFICATION TraceSpec
INVARIANT C09
CHECK_DEADLOCK FALSE
