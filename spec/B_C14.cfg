SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C14
CHECK_DEADLOCK FALSE
