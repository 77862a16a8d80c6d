SPECIFICATION Spec
INVARIANT C16
CHECK_DEADLOCK FALSE
ALIAS Short
