SPECIFICATION Spec
INVARIANT C01 GeneratorValid
CHECK_DEADLOCK FALSE
