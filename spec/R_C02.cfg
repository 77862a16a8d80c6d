SPECIFICATION Spec
INVARIANT C02 GeneratorValid
CHECK_DEADLOCK FALSE
