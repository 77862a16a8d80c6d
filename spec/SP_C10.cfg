SPECIFICATION PartSpec
INVARIANTS GeneratorValid P10
CHECK_DEADLOCK FALSE
