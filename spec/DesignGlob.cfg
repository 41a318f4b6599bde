SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxLevel = 2 MaxParts = 2
CHECK_DEADLOCK FALSE
