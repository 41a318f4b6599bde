SPECIFICATION Spec
CONSTANTS Largest = 3
INVARIANTS JsonBack TomlBack Headed Cut Twice
CHECK_DEADLOCK FALSE
