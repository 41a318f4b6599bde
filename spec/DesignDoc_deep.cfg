SPECIFICATION Spec
CONSTANTS Largest = 4
INVARIANTS JsonBack TomlBack Headed Cut Twice
CHECK_DEADLOCK FALSE
