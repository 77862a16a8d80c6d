SPECIFICATION Spec
INVARIANT GeneratorValid
INVARIANT C02
CHECK_DEADLOCK FALSE
