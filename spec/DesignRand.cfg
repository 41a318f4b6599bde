SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS Permitted Kept Refused Reach Listed Noticed
CHECK_DEADLOCK FALSE
