SPECIFICATION PartSpec
INVARIANTS GeneratorValid PAll
CHECK_DEADLOCK FALSE
