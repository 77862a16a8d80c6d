SPECIFICATION Spec
INVARIANT C13
CHECK_DEADLOCK FALSE
ALIAS Short
