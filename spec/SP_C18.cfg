SPECIFICATION PartSpec
INVARIANTS GeneratorValid P18
CHECK_DEADLOCK FALSE
