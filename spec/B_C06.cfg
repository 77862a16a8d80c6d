SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C06
CHECK_DEADLOCK FALSE
