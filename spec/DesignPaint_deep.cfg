SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS Painted Bare NoOther Agrees Local KeepsColours
CHECK_DEADLOCK FALSE
