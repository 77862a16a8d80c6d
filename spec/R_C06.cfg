SPECIFICATION Spec
INVARIANT C06 GeneratorValid
CHECK_DEADLOCK FALSE
