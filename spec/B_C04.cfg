SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C04
CHECK_DEADLOCK FALSE
