SPECIFICATION Spec
CONSTANTS MaxLen = 5 What = "list"
INVARIANT ListLaws
CHECK_DEADLOCK FALSE
