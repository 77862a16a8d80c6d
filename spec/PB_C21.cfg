SPECIFICATION BigStoreSpec
INVARIANTS GeneratorValid B21
CHECK_DEADLOCK FALSE
