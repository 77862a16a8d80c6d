SPECIFICATION Spec
INVARIANT C11 GeneratorValid
CHECK_DEADLOCK FALSE
