SPECIFICATION Spec
CONSTANTS MaxNodes = 4 MaxLevel = 3 MaxParts = 3
CHECK_DEADLOCK FALSE
