SPECIFICATION Spec
INVARIANT C15 GeneratorValid
CHECK_DEADLOCK FALSE
