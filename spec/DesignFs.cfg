SPECIFICATION Spec
CONSTANTS MaxDepth = 3 MaxNodes = 4
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
