SPECIFICATION StoreSpec
INVARIANT C21
CHECK_DEADLOCK FALSE
