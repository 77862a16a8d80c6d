SPECIFICATION PartSpec
INVARIANTS GeneratorValid P07
CHECK_DEADLOCK FALSE
