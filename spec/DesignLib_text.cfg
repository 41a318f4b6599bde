SPECIFICATION Spec
CONSTANTS MaxLen = 3 What = "text"
INVARIANT TextLaws
CHECK_DEADLOCK FALSE
