SPECIFICATION Spec
CONSTANTS MaxDepth = 3 MaxNodes = 5
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
