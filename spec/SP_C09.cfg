SPECIFICATION PartSpec
INVARIANTS GeneratorValid P09
CHECK_DEADLOCK FALSE
