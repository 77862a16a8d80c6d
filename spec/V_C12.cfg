SPECIFICATION Spec
INVARIANT C12 GeneratorValid
CHECK_DEADLOCK FALSE
