SPECIFICATION Spec
INVARIANT C03 GeneratorValid
CHECK_DEADLOCK FALSE
