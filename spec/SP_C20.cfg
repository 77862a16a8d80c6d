SPECIFICATION PartSpec
INVARIANTS GeneratorValid P20
CHECK_DEADLOCK FALSE
