SPECIFICATION PartSpec
INVARIANTS GeneratorValid P08
CHECK_DEADLOCK FALSE
