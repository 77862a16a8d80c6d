SPECIFICATION PartSpec
INVARIANTS GeneratorValid P22
CHECK_DEADLOCK FALSE
