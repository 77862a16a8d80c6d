SPECIFICATION Spec
INVARIANT All
CHECK_DEADLOCK FALSE
ALIAS Short
