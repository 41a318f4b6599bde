SPECIFICATION Spec
CONSTANT Longest = 5
INVARIANTS Permitted Kept Refused Reach Listed Noticed
CHECK_DEADLOCK FALSE
