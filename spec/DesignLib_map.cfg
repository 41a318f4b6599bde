SPECIFICATION Spec
CONSTANTS MaxLen = 0 What = "map"
INVARIANT MapLaws
CHECK_DEADLOCK FALSE
