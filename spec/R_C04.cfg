SPECIFICATION Spec
INVARIANT C04 GeneratorValid
CHECK_DEADLOCK FALSE
