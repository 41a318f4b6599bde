SPECIFICATION Spec
CONSTANTS MaxLen = 0 What = "number"
INVARIANT NumberLaws
CHECK_DEADLOCK FALSE
