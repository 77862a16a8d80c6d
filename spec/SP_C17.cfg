SPECIFICATION PartSpec
INVARIANTS GeneratorValid P17
CHECK_DEADLOCK FALSE
