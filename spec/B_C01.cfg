SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C01
CHECK_DEADLOCK FALSE
