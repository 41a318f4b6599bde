SPECIFICATION Spec
CONSTANT Longest = 3
INVARIANTS Painted Bare NoOther Agrees Local KeepsColours
CHECK_DEADLOCK FALSE
