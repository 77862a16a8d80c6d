SPECIFICATION PartSpec
INVARIANTS GeneratorValid P19
CHECK_DEADLOCK FALSE
