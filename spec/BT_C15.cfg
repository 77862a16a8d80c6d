SPECIFICATION Spec
INVARIANT C15
CHECK_DEADLOCK FALSE
ALIAS Short
