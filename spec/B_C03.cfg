SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C03
CHECK_DEADLOCK FALSE
