SPECIFICATION Spec
INVARIANT C14 GeneratorValid
CHECK_DEADLOCK FALSE
